"""C25: what a federation entity is told by another one it only takes in when that other entity, whose
keys it knows, has signed it, about what was asked and still valid; and a refused answer changes nothing.

All single and double deviations of answers to the services of a real federation entity, and all histories
of questions to honest, lying and failing superiors."""
import mc.env  # noqa
import base64
import copy
import hashlib
import hmac
import itertools
import json

from mc.env import Clock, T0
from mc.fed import PUB, b64, fresh_world, jwks, make_entity, payload_of, sign, verifies
from mc.graph import Graph, eid
from mc.report import Check, Result, chunked, digest, parallel

KEY = {"W": 0, "L": 1, "A": 2, "B": 3, "M": 4, "N": 5, "X": 6}
SERVICES = ["entity_configuration", "entity_statement", "list", "resolve", "trust_mark_status", "trust_mark_list",
            "trust_mark"]
TYPES = {"right": None, "json": "application/json", "jwt": "application/jwt", "jose": "application/jose",
         "text": "text/plain", "html": "text/html", "urlencoded": "application/x-www-form-urlencoded", "none": ""}
ES = "application/entity-statement+jwt"

# the answer: first what it ought to be
DIMS = {
    "key": ["right", "unknown", "own", "other", "none", "HS256", "tampered", "truncated", "kid"],
    "iss": ["asked", "other", "self", "unknown", None],
    "sub": ["asked", "other", "anchor", None],
    "exp": [3600, -1, -4000, None],
    "iat": [-5, 100, None],
    "extra": [None, "crit", "known crit", "extension"],
    "id": ["asked", "other", "longer", None],       # of a trust mark
    "form": ["compact", "claims", "jws json", "jws json+claims", "list", "empty", "garbage"],
    "type": list(TYPES),
    "status": [200, 201, 302, 400, 404, 500, "no connection"],
}
GOOD = {k: v[0] for k, v in DIMS.items()}
ASK = {     # the service: (keyword arguments, asked issuer, asked subject, route)
    "ec A": ("entity_configuration", {"entity_id": eid("A")}, "A", "A", eid("A") + "/.well-known/openid-federation"),
    "ec M": ("entity_configuration", {"entity_id": eid("M")}, "M", "M", eid("M") + "/.well-known/openid-federation"),
    "ec N": ("entity_configuration", {"entity_id": eid("N")}, "N", "N", eid("N") + "/.well-known/openid-federation"),
    "es A": ("entity_statement", {"issuer": eid("A"), "subject": eid("M"), "fetch_endpoint": eid("A") + "/fetch"},
             "A", "M", eid("A") + "/fetch"),
    "es M": ("entity_statement", {"issuer": eid("M"), "subject": eid("L"), "fetch_endpoint": eid("M") + "/fetch"},
             "M", "L", eid("M") + "/fetch"),
    "es N": ("entity_statement", {"issuer": eid("N"), "subject": eid("L"), "fetch_endpoint": eid("N") + "/fetch"},
             "N", "L", eid("N") + "/fetch"),
    "resolve": ("resolve", {"entity_id": eid("A"), "endpoint": eid("A") + "/resolve",
                            "request_args": {"sub": eid("L"), "anchor": eid("A")}}, "A", "L", eid("A") + "/resolve"),
    "resolve N": ("resolve", {"entity_id": eid("N"), "endpoint": eid("N") + "/resolve",
                              "request_args": {"sub": eid("L"), "anchor": eid("A")}}, "N", "L",
                  eid("N") + "/resolve"),
}
MARK = "https://mark.example.com/one"
ASK.update({
    "tm " + n: ("trust_mark", {"entity_id": eid(n), "endpoint": eid(n) + "/trust_mark",
                               "request_args": {"trust_mark_id": MARK, "sub": eid("W")}}, n, "W",
                eid(n) + "/trust_mark") for n in "MN"})
KNOWN = {"W", "A", "B", "M"}        # whose keys the asking entity has


def entity():
    e = make_entity(eid("W"), KEY["W"], authority_hints=[eid("A")],
                    trust_anchors={eid(a): jwks(KEY[a]) for a in "AB"}, endpoints=["entity_configuration"],
                    services=SERVICES)
    from idpyoidc.key_import import import_jwks
    e.keyjar = import_jwks(e.keyjar, jwks(KEY["M"]), eid("M"))
    return e


def state(e):
    kj = e.keyjar
    cc = e.function.trust_chain_collector.config_cache
    return json.loads(json.dumps([
        {o: sorted(k.kid for k in kj.get_signing_key("RSA", o)) for o in sorted(kj.owners())},
        {k: plain(v) for k, v in ((eid(n), cc[eid(n)]) for n in sorted(KEY)) if v},
        {k: sorted(x["kid"] for x in v["keys"]) for k, v in sorted(e.trust_anchors.items())},
    ], default=str, sort_keys=True))


def plain(v):
    return v.to_dict() if hasattr(v, "to_dict") else v


def answer(c, ask):
    """(status, content type, body), claims, whether it has to be taken in"""
    service, _, frm, about, _ = ASK[ask]
    now = int(Clock.now)
    who = {"asked": eid(frm), "other": eid("B"), "self": eid("W"), "unknown": eid("X")}
    sub = {"asked": eid(about), "other": eid("X"), "anchor": eid("A")}
    p = {"metadata": {"federation_entity": {"federation_fetch_endpoint": eid(frm) + "/fetch",
                                            "federation_list_endpoint": eid(frm) + "/list"}}}
    if service == "trust_mark":
        p = {"ref": "https://mark.example.com"}
        if c["id"]:
            p["id"] = {"asked": MARK, "other": "https://mark.example.com/two", "longer": MARK + "/more"}[c["id"]]
    elif service != "resolve":
        p["jwks"] = jwks(KEY[about])
    if c["iss"]:
        p["iss"] = who[c["iss"]]
    if c["sub"]:
        p["sub"] = sub[c["sub"]]
    for k in ("exp", "iat"):
        if c[k] is not None:
            p[k] = now + c[k]
    if c["extra"] == "crit":
        p.update({"crit": ["strange"], "strange": 1})
    elif c["extra"] == "known crit":
        p.update({"crit": ["metadata"]})
    elif c["extra"] == "extension":
        p["strange"] = 1
    num = {"unknown": KEY["X"], "own": KEY["W"], "other": KEY["B"]}.get(c["key"], KEY[frm])
    hdr = {"typ": {"resolve": "resolve-response+jwt", "trust_mark": "trust-mark+jwt"}.get(service, "entity-statement+jwt")}
    if c["key"] == "kid":
        hdr["kid"] = "nobody's"
    if c["key"] == "none":
        tok = b64({"alg": "none", **hdr}) + "." + b64(p) + "."
    elif c["key"] == "HS256":
        m = b64({"alg": "HS256", **hdr}) + "." + b64(p)
        tok = m + "." + base64.urlsafe_b64encode(
            hmac.new(json.dumps(PUB[num]).encode(), m.encode(), hashlib.sha256).digest()).decode().rstrip("=")
    else:
        tok = sign(p, num, headers=hdr)
        h, m, s = tok.split(".")
        if c["key"] == "tampered":
            tok = f"{h}.{b64(dict(p, more=1))}.{s}"
        elif c["key"] == "truncated":
            tok = tok[:-8]
    h, m, s = tok.split(".")
    as_json = {"payload": m, "protected": h, "signature": s}
    body = {"compact": tok, "claims": json.dumps(p), "jws json": json.dumps(as_json),
            "jws json+claims": json.dumps(dict(p, **as_json)), "list": json.dumps([tok]), "empty": "",
            "garbage": "a.b.c"}[c["form"]]
    ctype = TYPES[c["type"]]
    if ctype is None:
        ctype = {"resolve": "application/resolve-response+jwt",
                 "trust_mark": "application/trust_mark+jwt; charset=utf-8"}.get(service, ES)
    good = c["form"] == "compact" and c["status"] in (200, 201) and frm in KNOWN and verifies(
        tok, jwks(KEY[frm])) if c["key"] not in ("none", "HS256") else False
    good = bool(good) and c["iss"] == "asked" and p.get("sub") == eid(about) and c["iat"] == -5 and \
        c["extra"] != "crit"
    if service == "trust_mark":
        good = good and c["id"] == "asked" and (c["exp"] is None or c["exp"] >= 0)
    else:
        good = good and (c["exp"] or -1) >= 0
    must = good
    if good and (c["type"] not in ("right", "jwt") or c["status"] == 201 or c["extra"] or c["key"] == "kid"):
        must = None
    if service == "resolve" and good is False and (c["exp"] is None or c["iat"] is None) and answer(
            dict(c, exp=3600, iat=-5), ask)[2] is not False:
        must = None
    if service in ("resolve", "trust_mark") and c["extra"] == "crit" and answer(dict(c, extra=None), ask)[2] is not False:
        must = None
    return (c["status"], ctype, body), p, must


def single(res, case):
    Clock.reset()
    ask = case["ask"]
    service, kw, frm, about, route = ASK[ask]
    c = dict(GOOD, **case.get("dev", {}))
    w = fresh_world()
    e = entity()
    resp, claims, must = answer(c, ask)
    if resp[0] != "no connection":
        w.add(route, lambda q: resp)
    before = state(e)
    try:
        got = e.do_request(service, **copy.deepcopy(kw))
        got = plain(got)
        if not isinstance(got, dict) or "error" in got or "http_response" in got:
            got = None
    except Exception:
        got = None
    after = state(e)
    res.count("evaluations")
    res.count(f"{must}")
    bad = None
    if got is not None and must is False:
        bad = "taken in"
    elif got is None and must:
        bad = "refused"
    elif got is not None:
        if any(got.get(k) != v for k, v in claims.items()) or set(got) - set(claims):
            bad = f"became {got}"
        elif after[0] != before[0] or after[2] != before[2]:
            bad = f"keys {after[0]}"
        elif service == "entity_configuration" and set(after[1]) - set(before[1]) - {eid(frm)}:
            bad = f"known afterwards {sorted(after[1])}"
    elif after != before:
        bad = f"refused but changed {after}"
    if bad:
        res.violation(f"{bad[:30]}:{json.dumps(case, sort_keys=True)}", f"{bad[:300]} {case}", case)
        return
    res.states.add(digest(case))


def cases(thorough):
    for ask in ASK:
        yield {"ask": ask}
        for n in (1, 2, 3) if thorough else (1, 2):
            for dims in itertools.combinations(DIMS, n):
                if "id" in dims and not ask.startswith("tm "):
                    continue
                for vals in itertools.product(*(DIMS[d][1:] for d in dims)):
                    yield {"ask": ask, "dev": dict(zip(dims, vals))}


# --------------------------------------------------------------------------------- histories
OPS = ["ec A", "ec M", "es A", "list A", "list M", "chain L", "move A", "rotate M", "A lies", "M lies", "M passes on",
       "A loses", ("time", 3603)]


class Fed25(Graph):
    def __init__(self):
        super().__init__({"L": ["M"], "M": ["A"], "N": ["A"], "W": ["A"]}, dict(KEY))
        self.at = 1
        self.lie = {}

    def ec(self, n, fault=None):
        self.ec_life = int(Clock.now) - T0 + 3600
        at = self.at if n == "A" else 1
        self.metadata[n] = {"federation_entity": {"federation_fetch_endpoint": f"{eid(n)}/fetch{at}",
                                                  "federation_list_endpoint": f"{eid(n)}/list{at}"}}
        lie = self.lie.get(n)
        if lie == "claims":
            evil = {"federation_fetch_endpoint": eid("X") + "/fetch1", "federation_list_endpoint": eid("X") + "/list1"}
            return json.dumps({"iss": eid(n), "sub": eid(n), "iat": T0, "exp": T0 + 10 ** 6, "jwks": jwks(KEY["X"]),
                               "metadata": {"federation_entity": evil}})
        if lie == "passes on":
            return self.statement("A", "M")
        return super().ec(n, fault)

    def statement(self, n, sub, fault=None):
        self.life = int(Clock.now) - T0 + 3600
        return super().statement(n, sub, fault)

    def members(self, n):
        return sorted(eid(k) for k, v in self.hints.items() if n in v)

    def serve(self, w):
        super().serve(w)
        for n in KEY:
            well_known = w.routes[eid(n) + "/.well-known/openid-federation"]

            def config(q, n=n, func=well_known):
                if self.lie.get(n) == "lost":
                    return 404, "text/plain", "lost"
                status, ctype, body = func(q)
                return status, "application/json" if self.lie.get(n) == "claims" else ctype, body
            w.add(eid(n) + "/.well-known/openid-federation", config)
            fetch = w.routes.pop(eid(n) + "/fetch")
            for at in (1, 2):
                def there(func, n=n, at=at):
                    return lambda q: func(q) if n != "A" or self.at == at else (404, "text/plain", "moved")
                w.add(f"{eid(n)}/fetch{at}", there(fetch))
                w.add(f"{eid(n)}/list{at}", there(lambda q, n=n: (200, "application/json", json.dumps(
                    self.members(n) if n != "X" else [eid("X")]))))


def history(res, case):
    from fedservice.entity.function import get_verified_trust_chains
    Clock.reset()
    fed = Fed25()
    w = fresh_world()
    fed.serve(w)
    e = entity()
    first = state(e)[0]
    real = {eid("M"): {"k04", "k08"}, eid("L"): {"k01"}, eid("N"): {"k05"}}
    last = -10 ** 9         # when something last changed
    ops = list(case["ops"])
    for n, op in enumerate(ops + ["honest", ("time", 3603), "list M", "es A", "chain L", "ec A"]):
        now = int(Clock.now)
        bad = None
        steady = now > last + 3600 and not fed.lie
        if op[0] == "time":
            Clock.advance(op[1])
            continue
        if op in ("move A", "rotate M", "A lies", "M lies", "M passes on", "A loses", "honest"):
            last = now
            if op == "move A":
                fed.at = 3 - fed.at
            elif op == "rotate M":
                fed.key["M"] = 8 if fed.key["M"] == 4 else 4
            elif op == "honest":
                fed.lie = {}
            else:
                lie = {"A lies": "claims", "M lies": "claims", "M passes on": "passes on", "A loses": "lost"}[op]
                if fed.lie.pop(op[0], None) != lie:
                    fed.lie[op[0]] = lie
            continue
        before = state(e)
        what, who = op.split()
        res.count("evaluations")
        if what == "chain":
            chains = get_verified_trust_chains(e, eid(who))
            if not chains and steady:
                bad = "no trust chain"
            elif chains and ([c.iss_path for c in chains] != [[eid("L"), eid("M"), eid("A")]] or
                             chains[0].anchor != eid("A")):
                bad = f"trust chains {[c.iss_path for c in chains]}"
        else:
            service, kw = {"ec": ("entity_configuration", {"entity_id": eid(who)}),
                           "es": ("entity_statement", {"issuer": eid(who), "subject": eid("M")}),
                           "list": ("list", {"entity_id": eid(who)})}[what]
            try:
                got = e.do_request(service, **kw)
                got = plain(got)
                if "error" in got:
                    got = None
            except Exception:
                got = None
            if what == "list":
                if got is None and steady:
                    bad = "no list"
                elif got is not None and sorted(got) != fed.members(who):
                    bad = f"listed {got}"
            else:
                right = fed.ec(who) if what == "ec" else fed.statement("A", "M")
                if fed.lie.get(who) and what == "ec":
                    right, must = None, False
                else:
                    known = verifies(right, jwks(*(int(k[1:]) for k in before[0][eid(who)])))
                    must = known and (steady or what == "ec")
                    right = payload_of(right) if known else None
                if got is None and must:
                    bad = "no answer"
                elif got is not None and got != right:
                    bad = f"answer {got}"
        keys, anchors = state(e)[0], state(e)[2]
        if anchors != before[2] or any(keys.get(k) != v for k, v in first.items() if k != eid("M")) or \
                any(set(v) - real.get(k, set()) for k, v in keys.items() if k not in first or k == eid("M")):
            bad = bad or f"keys {keys}"
        if bad:
            res.violation(f"{bad[:30]}:{json.dumps(case)}", f"{bad[:300]} {case} step {n} {op}", case)
            return
        res.states.add(digest([ops[:n], op]))


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            yield {"ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "ops" in case:
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        else:
            single(res, case)
    return res


def main():
    chk = Check("C25", "exploration", ["keys used to verify a chain once are remembered for the entity for good",
                                       "crit, exp and iat of what a resolver says are not judged"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 4 if chk.thorough else 3
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(depth)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "11 questions x all combinations of up to 2 (thorough 3) deviations from the right answer in signing "
                "key, iss, sub, exp, iat, trust mark identifier, further claims, serialization, content type and status; all histories of "
                "13 operations up to the stated length, followed by honest superiors; distinct are the answers and "
                "prefixes of histories",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
