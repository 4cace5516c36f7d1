"""C28: what is kept in directories is published as it is.

All contents of the directories of an issuer and its subjects against what FSFetchEntityStatement makes of
them, all sequences of requests and edits to one object, and all federations of up to five entities kept in
directories, seen by a real entity whose only way to others is an FSPublisher."""
import mc.env  # noqa
import itertools
import json
import os
import shutil
import tempfile
from urllib.parse import quote_plus
from urllib.parse import urlencode

from mc.env import Clock, T0
from mc.fed import PRIV, PUB, header_of, jwks, key_conf, payload_of, verifies
from mc.graph import simple_paths
from mc.report import Check, Result, chunked, digest, parallel

FILES = {
    "metadata": ("metadata.json", [{"openid_relying_party": {"client_name": "x"}},
                                   {"federation_entity": {"contacts": ["a", "b"]}, "oauth_client": {}}]),
    "metadata_policy": ("policy.json", [{"openid_relying_party": {"contacts": {"add": ["ops"]}}},
                                        {"oauth_client": {"scope": {"subset_of": ["a"]}}}]),
    "constraints": ("constraints.json", [{"max_path_length": 1},
                                         {"naming_constraints": {"permitted": ["https://.no"]}}]),
    "authority_hints": ("authority.json", [["https://a.example.com"], ["https://a.example.com", "https://b.example.com"]]),
}
ISS = "i.example.com"
ISS2 = "i.example.com:8443"


class Dirs:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c28.")
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.path)

    def put(self, iss, sub, name, value):
        d = os.path.join(self.path, iss, sub)
        os.makedirs(d, exist_ok=True)
        if value is None:
            if os.path.exists(os.path.join(d, name)):
                os.remove(os.path.join(d, name))
        else:
            with open(os.path.join(d, name), "w") as fp:
                json.dump(value, fp)

    def keys(self, iss, sub, idx, private=False):
        self.put(iss, sub, "jwks.json", {"keys": [dict((PRIV if private else PUB)[i]) for i in idx]})

    def info(self, iss, sub, choice):
        """choice: one of None, 0, 1 per file"""
        for (name, vals), c in zip(FILES.values(), choice):
            self.put(iss, sub, name, None if c is None else vals[c])


def wanted(choice):
    return {claim: vals[c] for (claim, (_, vals)), c in zip(FILES.items(), choice) if c is not None}


def entity_id(sub):
    return "https://" + sub if not sub.startswith("https%3A") else sub.replace("%3A", ":").replace("%2F", "/")


def wrong(tok, sub, choice, sub_keys, iss_keys, iss=ISS):
    try:
        p = payload_of(tok)
    except Exception as err:
        return f"not a statement: {err!r}"
    if not verifies(tok, jwks(*iss_keys)):
        return "not signed with the issuer's keys"
    if header_of(tok).get("alg") != "RS256":
        return f"signed with {header_of(tok)}"
    if p.get("iss") != "https://" + iss or p.get("sub") != entity_id(sub):
        return f"by {p.get('iss')} about {p.get('sub')}"
    now = int(Clock.now)
    if not (p.get("iat", 0) <= now < p.get("exp", 0)):
        return f"valid from {p.get('iat')} to {p.get('exp')}"
    key = lambda k: (k.get("kid"), k.get("n"), k.get("e"), k.get("kty"), "d" in k)
    if sorted(map(key, (p.get("jwks") or {}).get("keys", []))) != sorted(map(key, jwks(*sub_keys)["keys"])):
        return f"keys {sorted(map(key, (p.get('jwks') or {}).get('keys', [])))}"
    got = {k: v for k, v in p.items() if k not in ("iss", "sub", "iat", "exp", "jwks", "jti")}
    if got != wanted(choice):
        return f"claims {got}"
    return None


SUBS = {"self": ISS, "host": "s.example.com", "quoted": quote_plus("https://q.example.com/one"),
        "port": "p.example.com:8080"}
IKEYS, SKEYS = [1], {"self": [1], "host": [2], "quoted": [3, 4], "port": [5]}


def setup(d, iss_keys=IKEYS, iss=ISS):
    d.keys(iss, iss, iss_keys, private=True)
    for s in SUBS:
        if s != "self":
            d.keys(iss, SUBS[s], SKEYS[s])


def contents(res, case):
    """Every content of a subject's directory, next to another subject's"""
    from fedservice.fetch_entity_statement.fs2 import FSFetchEntityStatement
    from fedservice.fetch_entity_statement.fs2 import FSPublisher
    Clock.reset()
    with Dirs() as d:
        iss_keys, iss = case["keys"], case["iss"]
        setup(d, iss_keys, iss)
        name = dict(SUBS, self=iss)
        skeys = dict(SKEYS, self=iss_keys)
        for choice in itertools.product((None, 0, 1), repeat=4):
            other = choice[1:] + choice[:1]
            d.info(iss, name[case["sub"]], choice)
            d.info(iss, name[case["other"]], other)
            fse = FSFetchEntityStatement(d.path, iss=iss)
            pub = FSPublisher(d.path)
            for who, c in ((case["sub"], choice), (case["other"], other)):
                ways = [lambda: fse.create_entity_statement(name[who])]
                if who == "self":
                    ways.append(lambda: pub("GET", f"https://{iss}/.well-known/openid-federation").text)
                if who != "quoted":
                    ways.append(lambda: pub("GET", f"https://{iss}/fetch?" + urlencode({"sub": entity_id(name[who])})).text)
                    ways.append(lambda: pub("GET", f"https://{iss}/f/e?a=b&" + urlencode(
                        {"iss": "https://" + iss, "sub": entity_id(name[who])}), timeout=1).text)
                for n, ask in enumerate(ways):
                    res.count("evaluations")
                    try:
                        bad = wrong(ask(), name[who], c, skeys[who], iss_keys, iss)
                    except Exception as err:
                        bad = repr(err)
                    if bad:
                        res.violation(f"{bad[:40]}:{case}:{choice}", f"{bad} {case} {choice} {who} asked {n}", case)
                        return
                    res.states.add(digest([case, choice, who, n]))


# ---------------------------------------------------------------------------- requests and edits
OPS = [("ask", "self"), ("ask", "host"), ("ask", "quoted"), ("ask", "port"), ("edit", "self"), ("edit", "host"),
       ("clear", "host"), ("edit", "quoted"), "anew", ("time", 90000), ("rekey", "host"), ("rekey", "self"),
       ("fetch", "host"), ("fetch", "self")]
STATES = {"self": [(0, None, None, 0), (1, None, None, 1)], "host": [(None, 0, 0, None), (0, 1, None, None)],
          "quoted": [(0, 0, 1, None), (None, 1, 1, 0)], "port": [(None, 0, None, None)]}


def history(res, case):
    """What is said is what's in the files when asked; an object may remember keys, a publisher doesn't"""
    from fedservice.fetch_entity_statement.fs2 import FSFetchEntityStatement
    from fedservice.fetch_entity_statement.fs2 import FSPublisher
    Clock.reset()
    with Dirs() as d:
        setup(d)
        now = {s: STATES[s][0] for s in SUBS}
        for s in SUBS:
            d.info(ISS, SUBS[s], now[s])
        keys = dict(SKEYS)
        fse, first = FSFetchEntityStatement(d.path, iss=ISS), {"self": keys["self"]}
        pub = FSPublisher(d.path)
        for n, op in enumerate(list(case["ops"]) + [("ask", "host"), ("ask", "self"), ("fetch", "host"), ("fetch", "self")]):
            if op == "anew":
                fse, first = FSFetchEntityStatement(d.path, iss=ISS), {"self": keys["self"]}
            elif op[0] == "time":
                Clock.advance(op[1])
            elif op[0] == "rekey":
                s = op[1]
                keys[s] = [7] if keys[s] == SKEYS[s] else SKEYS[s]
                d.keys(ISS, SUBS[s], keys[s], private=s == "self")
            elif op[0] in ("edit", "clear"):
                s = op[1]
                now[s] = (None,) * 4 if op[0] == "clear" else STATES[s][now[s] == STATES[s][0]]
                d.info(ISS, SUBS[s], now[s])
            else:
                res.count("evaluations")
                s = op[1]
                try:
                    if op[0] == "fetch":
                        tok = pub("GET", f"https://{ISS}/.well-known/openid-federation" if s == "self" else
                                  f"https://{ISS}/fetch?" + urlencode({"sub": entity_id(SUBS[s])})).text
                        ok = [(keys[s], keys["self"])]
                    else:
                        tok = fse.create_entity_statement(SUBS[s])
                        first.setdefault(s, keys[s])
                        ok = [(first[s], first["self"])] + ([(keys[s], keys["self"])] if s == "self" else
                                                            list(itertools.product((first[s], keys[s]), (first["self"], keys["self"]))))
                    bad = [wrong(tok, SUBS[s], now[s], sk, ik) for sk, ik in ok]
                    bad = None if None in bad else bad[0]
                except Exception as err:
                    bad = repr(err)
                if bad:
                    res.violation(f"{bad[:40]}:{case}", f"{bad} {case} step {n} {op}", case)
                    return
            res.states.add(digest([case["ops"][:n], op]))


# ---------------------------------------------------------------------------------- federations
NUM = {"L": 0, "M": 1, "N": 2, "A": 3, "B": 4}
HOST = {n: f"{n.lower()}.example.com" for n in NUM}


def hid(n):
    return "https://" + HOST[n]


def publish(d, hints, faults, policies):
    """The directories of a federation"""
    for n in NUM:
        if n in faults:
            continue
        d.keys(HOST[n], HOST[n], [NUM[n]], private=True)
        md = {"federation_entity": {"organization_name": n}} if n != "L" else {
            "openid_relying_party": {"client_name": "L", "contacts": ["l"]}}
        if n != "L":
            md["federation_entity"]["federation_fetch_endpoint"] = hid(n) + "/fetch"
        d.put(HOST[n], HOST[n], "metadata.json", md)
        if hints.get(n):
            d.put(HOST[n], HOST[n], "authority.json", [hid(h) for h in hints[n]])
        for sub, hs in hints.items():
            if n in hs and (n, sub) not in faults:
                d.keys(HOST[n], HOST[sub], [NUM[sub]])
                if n in policies:
                    d.put(HOST[n], HOST[sub], "policy.json", {"openid_relying_party": {"contacts": {"add": [n]}}})


def observer(anchors, httpc):
    """An entity with nothing but these directories to get statements from"""
    from idpyoidc.key_import import import_jwks
    from fedservice.entity import FederationEntity
    from fedservice.utils import build_entity_config
    conf = build_entity_config("https://obs.example.org", key_config=key_conf(9), preference={"organization_name": "o"})
    fe = FederationEntity(httpc=httpc, **conf)
    for a, k in anchors.items():
        fe.keyjar = import_jwks(fe.keyjar, k, a)
    fe.function.trust_chain_collector.trust_anchors = anchors
    return fe


def federation(res, case):
    from fedservice.entity.function import get_verified_trust_chains
    from fedservice.fetch_entity_statement.fs2 import FSPublisher
    Clock.reset()
    hints, faults = case["hints"], [tuple(f) if isinstance(f, list) else f for f in case["faults"]]
    with Dirs() as d:
        publish(d, hints, faults, case["policies"])
        fe = observer({hid(a): jwks(NUM[a]) for a in case["anchors"]}, FSPublisher(d.path))
        res.count("evaluations")
        want = {}
        for p, _ in simple_paths({k: list(v) for k, v in hints.items()}, "L"):
            if p[-1] in case["anchors"] and not any(x in faults for x in p) and \
                    not any((b, a) in faults for a, b in zip(p, p[1:])):
                want[p] = sorted({"l"} | {x for x in p[1:] if x in case["policies"]})
        try:
            chains = get_verified_trust_chains(fe, hid("L"))
            got = {}
            for tc in chains:
                path = ("L",) + tuple(next(n for n in NUM if hid(n) == i) for i in
                                      [p["iss"] for p in reversed(tc.verified_chain)] if i != hid("L"))
                path = tuple(k for k, _ in itertools.groupby(path))
                got[path] = sorted(tc.metadata["openid_relying_party"]["contacts"])
            bad = None if got == want else f"found {got}, should be {want}"
        except Exception as err:
            bad = repr(err) if "L" not in faults else None
            got = {}
        if bad:
            res.violation(f"{bad[:60]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
            return
        res.count("chains found", len(got))
        if got:
            res.states.add(digest(case))


def cases(thorough):
    for sub in SUBS:
        for other in SUBS:
            if sub != other:
                for keys in ([1], [1, 6]):
                    for iss in (ISS, ISS2):
                        yield {"sub": sub, "other": other, "keys": keys, "iss": iss}
    for n in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for ops in itertools.product(OPS, repeat=n):
            yield {"ops": ops}
    up = {"L": ["", "A", "B", "M", "N", "AB", "AM", "MN", "MNA"], "M": ["", "A", "B", "AB", "N", "NA"],
          "N": ["", "A", "B", "M", "BM"]}
    for lh, mh, nh in itertools.product(*up.values()):
        hints = {"L": lh, "M": mh, "N": nh}
        for anchors in ("A", "AB") if not thorough else ("A", "B", "AB"):
            for pol in ("", "AMN"):
                yield {"hints": hints, "anchors": anchors, "policies": pol, "faults": []}
            for f in ["M", "N", "A"] + [[b, a] for a in hints for b in hints[a]]:
                yield {"hints": hints, "anchors": anchors, "policies": "AM", "faults": [f]}


def work(chunk):
    res = Result()
    for case in chunk:
        if "ops" in case:
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        elif "hints" in case:
            federation(res, case)
        else:
            contents(res, case)
    return res


def main():
    chk = Check("C28", "exploration", ["an object may remember keys it has read (a publisher doesn't)",
                                       "entities without a path in their identifiers, except subjects with a quoted one"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 4 if chk.thorough else 3
    res = parallel(work, chunked(list(cases(chk.thorough)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "all 81 contents of the directories of two of four subjects; all histories of 14 requests and edits up to "
                "the stated length; 270 graphs of a leaf, two intermediates and two anchors x trust anchors x policies x "
                "every single missing directory", "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
