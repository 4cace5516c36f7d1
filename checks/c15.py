"""C15: explicit registration registers precisely what a valid trust chain lets the client be.

Federations x deviating registration requests on real OpenID Providers and Authorization Servers,
and all histories of registrations, forgeries, changes and passing time, judged against a model of
the client database."""
import mc.env  # noqa
import copy
import itertools
import json

from mc.env import Clock, T0
from mc.fed import b64, fresh_world, jwks, payload_of, sign, verifies
from mc.graph import Graph, eid
from mc.op import make_server
from mc.report import Check, Result, chunked, digest, parallel

KEY = {"O": 0, "C": 1, "A": 2, "B": 3, "M": 4, "U": 5, "X": 6}
ME = eid("O")
KINDS = {"openid_provider": "openid_relying_party", "oauth_authorization_server": "oauth_client"}
PROTOCOL_KEY = 11
STRUCT = {"A": {"C": "A"}, "M": {"C": "M", "M": "A"}, "AB": {"C": "AB"}, "BA": {"C": "BA"},
          "MB": {"C": "MB", "M": "AB"}, "U": {"C": "U"}, "none": {}, "UA": {"C": "UA"}}


def client_md(typ, name="x", redirect="https://c.example.com/cb"):
    md = {"client_name": name, "contacts": ["leaf"], "redirect_uris": [redirect],
          "response_types": ["code"], "grant_types": ["authorization_code"],
          "token_endpoint_auth_method": "private_key_jwt", "jwks": jwks(PROTOCOL_KEY)}
    return md


class Fed(Graph):
    """Every superior adds its name to contacts; policies by name on top of that"""

    def __init__(self, hints, typ, policy=None, given=None, faults=None):
        self.typ, self.policy, self.given = typ, policy, given
        super().__init__({k: list(v) for k, v in hints.items()}, KEY, faults=faults,
                         metadata={"C": {typ: client_md(typ)}, "X": {typ: client_md(typ)}})

    def ec(self, n, fault=None):
        self.ec_life = int(Clock.now) - T0 + 3600
        return super().ec(n, fault)

    def statement(self, n, sub, fault=None):
        pol = {"contacts": {"add": [n]}}
        if self.policy == "violated" and n == "A":
            pol["grant_types"] = {"one_of": ["implicit"]}
        if self.policy == "value":
            pol["client_name"] = {"value": f"{n}s"}
        about = {"metadata_policy": {self.typ: pol}}
        if self.given and sub == "C":
            about["metadata"] = {self.typ: {"client_name": "given"}}
        self.about[(n, sub)] = about
        self.life = int(Clock.now) - T0 + 3600
        return super().statement(n, sub, fault)

    def chains(self, who, anchors):
        """[(path from who, anchor last)] that ought to work"""
        res = []

        def walk(path):
            for h in self.hints.get(path[-1], []):
                if h in path:
                    continue
                if any(f for k, f in self.faults.items() if k in
                       (("fetch", h, path[-1]), ("ec", h), ("fetch", h, "*"))):
                    continue
                if h in anchors:
                    res.append(path + [h])
                walk(path + [h])
        walk([who])
        return res

    def resolved(self, md, path):
        """What the chain makes of the client's metadata, None when it violates the policy"""
        md = copy.deepcopy(md)
        if self.given and path[0] == "C":
            md["client_name"] = "given"
        for n in path[1:]:
            if self.policy == "violated" and n == "A":
                return None
            md["contacts"] = md.get("contacts", []) + [n]
        if self.policy == "value":
            names = {f"{n}s" for n in path[1:]}
            if len(names) > 1:
                return None
            md["client_name"] = names.pop()
        return md


# ---------------------------------------------------------------------------- requests
REQ = {
    "by": ["C", "forged", "foreign", "other jwks", "tampered", "none", "anchor"],
    "iss": ["C", "X", "A"],
    "sub": ["C", "X", "A"],
    "exp": [3600, 0, -1, -5000, None],
    "types": ["one+fe", "one", "both", "none", "other"],
    "md": ["same", "name", "contacts", "redirect", "no redirect", "fragment", "keys", "no hints", "hints",
           "grants", "no keys", "id", "own id"],
    "body": ["jwt", "garbage", "empty", "json"],
}
RGOOD = {k: v[0] for k, v in REQ.items()}


def request(c, fed, typ):
    """(token, client metadata in it)"""
    now = int(Clock.now)
    md = client_md(typ)
    if c["md"] == "name":
        md["client_name"] = "evil"
    elif c["md"] == "contacts":
        md["contacts"] = ["evil"]
    elif c["md"] == "redirect":
        md["redirect_uris"] = ["https://c.example.com/other"]
    elif c["md"] == "no redirect":
        del md["redirect_uris"]
    elif c["md"] == "fragment":
        md["redirect_uris"] = ["https://c.example.com/cb#x"]
    elif c["md"] == "grants":       # the server doesn't support the second
        md["grant_types"] = ["authorization_code", "urn:example:magic"]
    elif c["md"] == "no keys":
        del md["jwks"]
        md["token_endpoint_auth_method"] = "client_secret_basic"
    elif c["md"] == "keys":
        md["jwks"] = jwks(12)
    elif c["md"] == "id":           # somebody else's, who is registered
        md["client_id"] = eid("X")
    elif c["md"] == "own id":
        md["client_id"] = eid("C")
    other = (set(KINDS.values()) - {typ}).pop()
    types = {"one+fe": {typ: md, "federation_entity": {"organization_name": "C"}}, "one": {typ: md},
             "both": {typ: md, other: dict(md, client_name="other"), "federation_entity": {}},
             "none": {"federation_entity": {}}, "other": {"openid_provider": dict(md, issuer=eid("C"))}}
    p = {"iss": eid(c["iss"]), "sub": eid(c["sub"]), "iat": now - 5, "jwks": jwks(KEY["C"]),
         "metadata": types[c["types"]]}
    if c["exp"] is not None:
        p["exp"] = now + c["exp"]
    hints = [eid(h) for h in fed.hints.get("C", [])]
    if c["md"] == "hints":
        hints = [eid("U")]
    if hints and c["md"] != "no hints":
        p["authority_hints"] = hints
    key = KEY["C"]
    if c["by"] == "forged":         # correct by itself, but not the keys the superiors know
        p["jwks"], key = jwks(13), 13
    elif c["by"] == "foreign":
        p["jwks"], key = jwks(KEY["X"]), KEY["X"]
    elif c["by"] == "anchor":
        p["jwks"], key = jwks(KEY["A"]), KEY["A"]
    elif c["by"] == "other jwks":
        p["jwks"], key = jwks(KEY["C"], 13), 13
    tok = sign(p, key)
    if c["by"] == "tampered":
        h, _, s = tok.split(".")
        tok = f"{h}.{b64(dict(p, extra=1))}.{s}"
    elif c["by"] == "none":
        tok = b64({"alg": "none"}) + "." + b64(p) + "."
    if c["body"] == "garbage":
        tok = "a.b.c"
    elif c["body"] == "empty":
        tok = ""
    elif c["body"] == "json":
        tok = json.dumps(p)
    return tok, p, md if typ in p["metadata"] else None


def judge(c, tok, p, md, fed, anchors):
    """(must, [(anchor, resolved metadata)]): must True, False or None for either"""
    now = int(Clock.now)
    if c["body"] != "jwt" or c["iss"] != c["sub"] or c["iss"] != "C" or md is None:
        return False, []
    if "exp" in p and p["exp"] < now:
        return False, []
    if not verifies(tok, jwks(KEY["C"])):
        return False, []
    res = [(path[-1], fed.resolved(md, path)) for path in fed.chains("C", anchors)]
    res = [(a, r) for a, r in res if r is not None]
    if not res:
        return False, []
    if c["md"] in ("no redirect", "fragment", "no hints", "hints", "grants") or c["exp"] is None \
            or c["types"] == "both" or ("ec", "C") in fed.faults:
        return None, res
    if c["md"] == "no keys" and fed.typ == "openid_relying_party":
        return None, res        # the library can't
    if all(fed.hints.get(a) for a, _ in res):
        return None, res        # chains that end below the top needn't be found
    return True, res


class Server:
    def __init__(self, kind, anchors, priority=()):
        self.kind, self.typ = kind, KINDS[kind]
        self.combo = make_server(kind, ME, KEY["O"], {eid(a): KEY[a] for a in anchors}, protocol_key=10)
        self.combo["federation_entity"].context.tr_priority = [eid(a) for a in priority]
        self.server = self.combo[kind]
        self.ep = self.server.get_endpoint("registration")
        self.cdb = self.server.context.cdb

    def snapshot(self):
        return copy.deepcopy({k: dict(v) for k, v in self.cdb.items()})

    def keys_of(self, cid):
        try:
            keys = self.server.keyjar.get_issuer_keys(cid)
        except Exception:
            return []
        return sorted(k.kid for k in keys or [] if k.kty == "RSA")

    def register(self, tok):
        try:
            r = self.ep.process_request(self.ep.parse_request(tok))
        except Exception:
            return None
        if "error" in r or "response_msg" not in r:
            return None
        return r["response_msg"]


def norm(v):
    return sorted(map(str, v)) if isinstance(v, (list, tuple)) else v


def wrong(s, tok, must, options, sub, priority):
    """Register and compare with what should happen; an explanation if it doesn't"""
    before = s.snapshot()
    keys = {k: s.keys_of(k) for k in (eid("C"), eid("X"))}
    resp = s.register(tok)
    after = s.snapshot()
    if resp is None:
        if after != before:
            return "refused, but the registrations changed"
        if keys != {k: s.keys_of(k) for k in keys}:
            return "refused, but the client's keys changed"
        return "refused" if must else None
    if must is False:
        return "registered"
    if not verifies(resp, jwks(KEY["O"])):
        return "response not signed by the server"
    p = payload_of(resp)
    if p.get("iss") != ME or p.get("sub") != sub or p.get("aud") not in (sub, [sub]):
        return f"response iss {p.get('iss')} sub {p.get('sub')} aud {p.get('aud')}"
    if not T0 <= p.get("iat", 0) <= Clock.now < p.get("exp", 0):
        return "response lifetime"
    opts = [(a, md) for a, md in options if eid(a) == p.get("trust_anchor_id")]
    if not opts:
        return f"trust anchor {p.get('trust_anchor_id')}"
    best = [a for a in priority if a in {o[0] for o in options}]
    if best and len(options) > 1 and eid(best[0]) != p["trust_anchor_id"]:
        return f"trust anchor {p['trust_anchor_id']} although {best[0]} has priority"
    info = p.get("metadata", {}).get(s.typ)
    if not isinstance(info, dict) or set(p["metadata"]) != {s.typ}:
        return f"metadata {p.get('metadata')}"
    cid = info.get("client_id")
    changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
    if cid not in after or changed - {cid}:
        return f"response says {cid}, changed {changed}"
    entry = after[cid]
    if cid != sub and (cid in before or cid in map(eid, KEY)):
        return f"registered as {cid}"
    for claim in set(entry) & set(info) - {"redirect_uris", "jwks"}:
        if norm(entry[claim]) != norm(info[claim]):
            return f"response has {claim} {info[claim]}, registered is {entry[claim]}"
    for a, md in opts:
        reason = None
        for claim, value in md.items():
            if claim == "grant_types" and set(entry.get(claim, [])) < set(value):
                continue        # limited to what the server supports
            if claim == "redirect_uris":
                if [u[0] + (("?" + u[1]) if u[1] else "") for u in entry.get(claim, [])] != value:
                    reason = f"registered {claim} {entry.get(claim)} not {value}"
            elif claim in ("jwks", "client_id"):       # the keys are compared below
                continue
            elif claim in ("client_name", "contacts"):
                if norm(entry.get(claim)) != norm(value):
                    reason = f"registered {claim} {entry.get(claim)} not {value}"
                if norm(info.get(claim)) != norm(value):
                    reason = f"response has {claim} {info.get(claim)} not {value}"
            elif claim in entry and norm(entry[claim]) != norm(value):
                reason = f"registered {claim} {entry[claim]} not {value}"
        if "jwks" in md and not {k["kid"] for k in md["jwks"]["keys"]} <= set(s.keys_of(cid)):
            reason = "the client's keys aren't known"
        if not reason:
            return None
    return reason


def single(res, case):
    Clock.reset()
    kind = case["kind"]
    c = dict(RGOOD, **case.get("req", {}))
    faults = {tuple(k): v for k, v in case.get("faults", [])}
    fed = Fed(STRUCT[case["struct"]], KINDS[kind], case.get("policy"), case.get("given"), faults)
    fed.serve(fresh_world())
    s = Server(kind, case["anchors"], case.get("priority", ""))
    tok, p, md = request(c, fed, s.typ)
    must, options = judge(c, tok, p, md, fed, case["anchors"])
    if c["md"] == "id":
        fed.hints["X"] = ["A"]
        x = sign({"iss": eid("X"), "sub": eid("X"), "iat": T0, "exp": T0 + 100, "jwks": jwks(KEY["X"]),
                  "authority_hints": [eid("A")], "metadata": {s.typ: client_md(s.typ, "X", eid("X") + "/cb")}}, KEY["X"])
        assert s.register(x), "X"
    for n in range(2):      # a second time with everything cached
        res.count("evaluations")
        res.count(f"verdict {must}")
        bad = wrong(s, tok, must, options, eid("C"), case.get("priority", ""))
        if bad:
            res.violation(f"{bad[:50]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case} round {n}", case)
            return
    res.states.add(digest(case))
    if len(case.get("req", {})) > 1:
        res.sample(case)


# --------------------------------------------------------------------------- histories
OPS = ["v1", "v2", "forged", "bad redirect", "other", "violated", "fine", "expel", ("time", 3603)]


def history(res, case):
    Clock.reset()
    kind = case["kind"]
    hints = {"C": "A", "X": "A"}
    fed = Fed(hints, KINDS[kind])
    fed.serve(fresh_world())
    s = Server(kind, "A")
    since = {"violated": -10**6, "expel": -10**6}
    for n, op in enumerate(list(case["ops"]) + ["v2", "forged"]):
        now = int(Clock.now)
        if op in ("v1", "v2", "forged", "bad redirect", "other"):
            who = "X" if op == "other" else "C"
            md = client_md(s.typ, name=op, redirect="ftp://c.example.com/cb" if op == "bad redirect"
                           else f"https://{who.lower()}.example.com/{op}")
            tok = sign({"iss": eid(who), "sub": eid(who), "iat": now, "exp": now + 100,
                        "jwks": jwks(KEY[who] if op != "forged" else 13), "authority_hints": [eid("A")],
                        "metadata": {s.typ: md}}, KEY[who] if op != "forged" else 13)
            ok = [True]
            # what was true until recently may still be in an unexpired statement
            ok.append(fed.policy != "violated" if now > since["violated"] + 3600 else None)
            ok.append(not fed.faults if now > since["expel"] + 3600 else None)
            must = False if False in ok or op in ("forged", "bad redirect") else None if None in ok else True
            if not fed.faults and fed.policy != "violated" and must is None and since["expel"] < 0 \
                    and since["violated"] < 0:
                must = True
            res.count("evaluations")
            res.count(f"verdict {must}")
            options = [("A", dict(md, contacts=["leaf", "A"]))]
            bad = wrong(s, tok, must, options, eid(who), "")
            if bad:
                res.violation(f"{bad[:50]}:{case}", f"{bad} {case} step {n} {op}", case)
                return
            res.states.add(digest([kind, case["ops"][:n], op]))
        elif op in ("violated", "fine"):
            if (fed.policy or "fine") != op:
                since["violated"] = now
            fed.policy = None if op == "fine" else op
        elif op == "expel":
            if not fed.faults:
                since["expel"] = now
            fed.faults = {("fetch", "A", "*"): "404"}
        else:
            Clock.advance(op[1])


def reqs(depth):
    for n in range(depth + 1):
        for dims in itertools.combinations(REQ, n):
            for vals in itertools.product(*(REQ[d][1:] for d in dims)):
                yield dict(zip(dims, vals))


def cases(thorough):
    for kind in KINDS:
        for st in STRUCT:
            for anchors in ("A", "B", "AB", "M"):
                for prio in ("", "AB", "BA", "B", "X"):
                    for pol in (None, "value", "violated"):
                        for given in (False, True):
                            yield {"kind": kind, "struct": st, "anchors": anchors, "priority": prio,
                                   "policy": pol, "given": given}
        for st in ("A", "M", "AB"):
            for f in ("404", "expired", "bad signature", "other keys", "about another", "by another",
                      "garbage", "no connection"):
                for where in (("fetch", "A", "C"), ("fetch", "M", "C"), ("fetch", "A", "M"),
                              ("fetch", "B", "C"), ("ec", "A"), ("ec", "C")):
                    if where[0] == "ec" and f not in ("404", "no connection", "bad signature"):
                        continue
                    if where == ("ec", "A") and f == "bad signature":
                        continue        # nothing in it has to be believed
                    yield {"kind": kind, "struct": st, "anchors": "AB", "faults": [[where, f]]}
        for r in reqs(3 if thorough else 2):
            for st in ("A", "MB") if thorough or len(r) < 2 else ("A",):
                yield {"kind": kind, "struct": st, "anchors": "AB", "req": r}


def histories(depth):
    for kind in KINDS:
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                yield {"kind": kind, "ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "ops" in case:
            case = dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]])
            history(res, case)
        else:
            single(res, case)
    return res


def main():
    chk = Check("C15", "exploration", ["clients ask for what the server supports",
                                       "client databases are in memory"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 4 if chk.thorough else 3
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(depth)), 96))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "8 federations x anchors x priorities x policies, faults, all requests with at most "
                f"{3 if chk.thorough else 2} deviations over 7 dimensions, and all histories of 9 operations "
                "up to the stated length followed by two requests, on both kinds of servers",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
