"""C10: a resolve response only ever states what a valid trust chain to the requested anchor says.

All small federations x anchors x requests, and histories of requests, changes and passing time, on a
real resolver; every signed response is judged by an independent reading of the statements in it."""
import mc.env  # noqa
import itertools

from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, make_entity, payload_of, verifies
from mc.graph import Graph, eid, simple_paths
from mc.report import Check, Result, chunked, digest, parallel

R = "R"
KEY = {"L": 1, "A": 2, "B": 3, "C": 4, R: 0}
RP, OP = "openid_relying_party", "openid_provider"
ME = eid(R)


class Fed(Graph):
    """Superiors add their name (and the version of their policy) to the leaf's contacts"""

    def __init__(self, hints, version=0, **kw):
        super().__init__(hints, KEY, **kw)
        self.version = version
        self.metadata.setdefault("L", {RP: {"contacts": ["leaf"], "client_name": "x"}})
        self.leaf_life = 3600
        self.superior_life = 3600
        self.forged = False

    def ec(self, n, fault=None):
        self.ec_life = int(Clock.now) - T0 + (self.leaf_life if n == "L" else self.superior_life)
        if self.forged and n in "ABC":     # what the site of a superior says later
            if self.forged == "bad signature":
                fault = self.forged
            elif self.forged == "expired":
                self.ec_life = int(Clock.now) - T0 - 10
            elif self.forged == "other's":
                n = "B" if n == "A" else "A"
            else:
                self.key = dict(self.key, **{n: 15})
        try:
            return super().ec(n, fault)
        finally:
            self.key = KEY

    def statement(self, n, sub, fault=None):
        self.about[(n, sub)] = {"metadata_policy": {RP: {"contacts": {
            "add": [f"{n}{self.version}"]}}}}
        life = self.life
        self.life = int(Clock.now) - T0 + life
        try:
            return super().statement(n, sub, fault)
        finally:
            self.life = life


def chain_says(tokens, sub, anchor, keys):
    """Independent judgement of leaf first tokens: (contacts, exp) or an explanation"""
    now = Clock.now
    ps = []
    for t in tokens:
        try:
            ps.append(payload_of(t))
        except Exception:
            return "not a JWT in the trust chain"
    if len(ps) < 2:
        return "trust chain too short"
    if ps[0]["iss"] != sub or ps[0]["sub"] != sub:
        return f"the trust chain starts with {ps[0]['iss']} about {ps[0]['sub']}"
    if not verifies(tokens[0], ps[1].get("jwks", {"keys": []})):
        return "entity configuration not signed with the keys the superior lists"
    want, contacts = sub, ["leaf"]
    for n, p in enumerate(ps[1:], 1):
        if p["sub"] != want:
            return f"statement {n} is about {p['sub']}, not {want}"
        signers = ps[n + 1]["jwks"] if n + 1 < len(ps) else keys
        if not verifies(tokens[n], signers):
            return f"statement {n} is not signed by {p['iss']}"
        contacts += p.get("metadata_policy", {}).get(RP, {}).get("contacts", {}).get("add", [])
        want = p["iss"]
    if want != anchor:
        return f"trust chain ends at {want}, not {anchor}"
    exp = min(p["exp"] for p in ps)
    if exp <= now:
        return "expired statement in the trust chain"
    return sorted(contacts), exp, ps[0]["metadata"]


class Resolver:
    def __init__(self, anchors):
        self.fe = make_entity(ME, 0, trust_anchors={eid(a): jwks(KEY[a]) for a in anchors},
                              endpoints=["entity_configuration", "fetch", "list", "resolve"])
        self.anchors = anchors
        self.ep = self.fe.server.endpoint["resolve"]

    def ask(self, req, **kw):
        try:
            q = self.ep.parse_request(dict(req))
            r = self.ep.process_request(q, **kw)
            if "error" in r:
                return None
            info = self.ep.do_response(request=q, **r)
            r = info.get("response")
        except Exception:
            return None
        if isinstance(r, dict):
            r = r.get("response_args")
        if isinstance(r, str) and r.count(".") == 2:
            return r
        return None

    def wrong(self, req, must, **kw):
        """None when the answer is right"""
        tok = self.ask(req, **kw)
        if tok is None:
            return "refused although there is a trust chain" if must else None
        p = payload_of(tok)
        sub, anchor = req.get("sub"), req.get("anchor")
        name = {eid(a): a for a in self.anchors + R}.get(anchor)
        if name is None:
            return f"answered for an anchor that is not configured: {p}"
        if not verifies(tok, jwks(0)):
            return "not signed by the resolver"
        if p.get("iss") != ME or p.get("sub") != sub:
            return f"iss {p.get('iss')} sub {p.get('sub')}"
        tc = p.get("trust_chain")
        if not isinstance(tc, list):
            return "no trust chain"
        ends = 10**12
        if kw.get("with_ta_ec") and tc:
            ta = payload_of(tc[-1])
            if ta["iss"] != anchor or ta["sub"] != anchor or not verifies(tc[-1], jwks(KEY[name])):
                return f"wrong trust anchor configuration {ta}"
            tc, ends = tc[:-1], ta["exp"]
            if ends <= Clock.now:
                return "expired trust anchor configuration"
        said = chain_says(tc, sub, anchor, jwks(KEY[name]))
        if isinstance(said, str):
            return said
        contacts, exp, own = said
        exp = min(exp, ends)
        md = p.get("metadata")
        if not isinstance(md, dict):
            return "no metadata"
        want = set(own) if "type" not in req else {req["type"]} & set(own)
        if set(md) != want or not want:
            return f"metadata for {sorted(md)}, the entity is {sorted(own)}, asked {req.get('type')}"
        for typ in want:
            exp_md = dict(own[typ])
            if typ == RP:
                exp_md["contacts"] = contacts
            got = {k: sorted(v) if isinstance(v, list) else v for k, v in md[typ].items()}
            if got != exp_md:
                return f"metadata {got}, the trust chain says {exp_md}"
        if not isinstance(p.get("exp"), int) or p["exp"] > exp:
            return f"valid until {p.get('exp')}, the trust chain only until {exp}"
        if p["exp"] <= Clock.now:
            return "already expired"
        return None


def reachable(hints, anchor, faults=()):
    hit = {(f[0][1], f[0][2]) if f[0][0] == "fetch" else f[0][1] for f in faults}
    for p, _ in simple_paths(hints, "L"):
        if p[-1] == anchor and not any(
                sup in hit or (sup, sub) in hit for sub, sup in zip(p, p[1:])):
            return True
    return False


def near(x):
    return [x + "/", x[:-1], x + "x", x.upper(), ""]


def report(res, case, n, bad):
    res.violation(f"{bad[:60]}:{case}", f"{bad}: {case} step {n}", case)


def single(res, case):
    """every request against one federation, fresh resolver each and one resolver for all"""
    hints = {k: list(v) for k, v in case["hints"].items()}
    Clock.reset()
    faults = [(tuple(k), f) for k, f in case.get("faults", [])]
    g = Fed(hints, faults=dict(faults), life=case.get("life", 3600))
    g.leaf_life = case.get("leaf_life", 3600)
    if case.get("no_rp"):
        g.metadata["L"] = {OP: {"issuer": eid("L")}}
    g.serve(fresh_world())
    types = [OP] if case.get("no_rp") else [RP]
    shared = Resolver(case["anchors"])
    reqs = [{"sub": eid("L"), "anchor": eid(a)} for a in "ABCX" + R]
    reqs += [{"sub": eid("L"), "anchor": eid(a), "type": t}
             for a in case["anchors"] for t in (RP, OP, "federation_entity", "nothing")]
    reqs += [{"sub": eid("L"), "anchor": x} for a in case["anchors"] for x in near(eid(a))]
    reqs += [{"sub": x, "anchor": eid(a)} for a in case["anchors"][:1] for x in near(eid("L"))]
    reqs += [{"sub": eid("X"), "anchor": eid("A")}, {"sub": eid("L")}, {"anchor": eid("A")}, {}]
    for n, req in enumerate(reqs):
        a = {eid(x): x for x in case["anchors"]}.get(req.get("anchor"))
        must = bool(a and req.get("sub") == eid("L") and reachable(hints, a, faults)
                    and req.get("type", types[0]) in types + ["federation_entity"])
        for who, kw in ((shared, {}), (Resolver(case["anchors"]), {"with_ta_ec": True})):
            if kw and (case.get("faults") or n % 3):
                continue
            res.count("evaluations")
            res.count("must answer", int(must))
            bad = who.wrong(req, must, **kw)
            if bad:
                report(res, case, [req, kw], bad)
                return
    res.states.add(digest([case, 1]))


OPS = [("ask", "A"), ("ask", "C"), ("time", 400), ("time", 2000), ("time", 3300), ("policy",),
       ("cut", "A"), ("leaf",)]


def history(res, case):
    Clock.reset()
    hints = {k: list(v) for k, v in case["hints"].items()}
    g = Fed(hints, life=case["life"])
    g.leaf_life = case["leaf_life"]
    g.serve(fresh_world())
    r = Resolver("AC")
    for n, op in enumerate(list(case["ops"]) + [("ask", "A"), ("ask", "C")]):
        res.count("evaluations")
        if op[0] == "ask":
            # liveness is judged by the single requests, and here as long as nothing was cut
            must = reachable(hints, op[1]) and ["cut", "A"] not in [list(o) for o in case["ops"]]
            bad = r.wrong({"sub": eid("L"), "anchor": eid(op[1])}, must)
            if bad:
                report(res, case, n, bad)
                return
            res.states.add(digest([case["hints"], case["ops"][:n], Clock.now, op]))
        elif op[0] == "time":
            Clock.advance(op[1])
        elif op[0] == "policy":
            g.version += 1
        elif op[0] == "cut":
            g.faults[("ec", "A")] = "404"
            g.faults[("fetch", "A", "*")] = "404"
        elif op[0] == "leaf":
            g.metadata["L"] = {RP: {"contacts": ["leaf"], "client_name": f"v{n}"}}
    if len(case["ops"]) > 1:
        res.sample(case)


FORGED = ["bad signature", "expired", "other's", "other keys"]
ANCHOR_OPS = [("ask", "A"), ("tec", "A"), ("tec", "C"), ("time", 400), ("time", 3300), *(("forge", f) for f in FORGED),
              ("forge", False), ("short", 200), ("short", 3600)]


def anchors(res, case):
    """Asking for the trust anchor's configuration as well, while its site says this and that"""
    Clock.reset()
    hints = {k: list(v) for k, v in case["hints"].items()}
    g = Fed(hints, life=case["life"])
    g.leaf_life = case["leaf_life"]
    g.serve(fresh_world())
    r = Resolver("AC")
    lied = False
    for n, op in enumerate([tuple(o) for o in case["anchor_ops"]] + [("tec", "A"), ("tec", "C")]):
        if op[0] == "time":
            Clock.advance(op[1])
        elif op[0] == "forge":
            g.forged = op[1]
            lied = lied or bool(op[1])
        elif op[0] == "short":
            g.superior_life = op[1]
        else:
            res.count("evaluations")
            res.count(f"anchor's configuration {g.forged}")
            bad = r.wrong({"sub": eid("L"), "anchor": eid(op[1])}, reachable(hints, op[1]) and not lied,
                          **({"with_ta_ec": True} if op[0] == "tec" else {}))
            if bad:
                report(res, case, n, bad)
                return
            res.states.add(digest([case["hints"], case["anchor_ops"][:n], Clock.now, op, g.forged]))


def subsets(x):
    return [c for n in range(len(x) + 1) for c in itertools.combinations(x, n)]


def cases(thorough):
    for n, (l, a, b, c) in enumerate(itertools.product(
            subsets("ABC")[1:], subsets("BC"), subsets("AC"), subsets("AB"))):
        for anchors in ("AC", "ABC", "B") if thorough else (("AC", "ABC", "B")[n % 3],):
            yield {"hints": {"L": l, "A": a, "B": b, "C": c}, "anchors": anchors}
    base = [{"L": "AB", "A": "C", "B": "C"}, {"L": "A", "A": "BC"}, {"L": "ABC"},
            {"L": "CBA", "C": "A"}, {"L": "A" + R, "A": R}, {"L": "A", "A": "B", "B": R + "C"}]
    for h in base:
        for fault in (("ec", "A"), ("ec", "B"), ("ec", "L"), ("fetch", "A", "L"),
                      ("fetch", "B", "A"), ("fetch", "C", "B")):
            for f in ("404", "no connection", "bad signature", "garbage"):
                yield {"hints": h, "anchors": "ABC", "faults": [[fault, f]],
                       } if fault != ("ec", "L") else {
                           "hints": {"L": ""}, "anchors": "ABC", "faults": [[fault, f]]}
            yield {"hints": h, "anchors": "C"}
        for life, leaf in itertools.product((30, 299, 700, 1200, 5000), repeat=2):
            yield {"hints": h, "anchors": "ABC", "life": life, "leaf_life": leaf}
        yield {"hints": h, "anchors": "ABC", "no_rp": True}


def histories(thorough):
    for h in ({"L": "AB", "A": "C", "B": "C"}, {"L": "A", "A": "C"}):
        for life, leaf in ((1000, 2500), (2500, 1000), (5000, 5000)):
            for n in range(1, 5 if thorough else 4):
                for ops in itertools.product(OPS, repeat=n):
                    yield {"hints": h, "life": life, "leaf_life": leaf, "ops": ops}


def anchor_histories(thorough):
    for h in ({"L": "AB", "A": "C", "B": "C"}, {"L": "A", "A": "C"}):
        for life, leaf in ((1000, 2500), (5000, 5000)):
            for n in range(1, 4 if thorough else 3):
                for ops in itertools.product(ANCHOR_OPS, repeat=n):
                    yield {"hints": h, "life": life, "leaf_life": leaf, "anchor_ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        (anchors if "anchor_ops" in case else history if "ops" in case else single)(res, case)
    return res


def main():
    chk = Check("C10", "exploration", ["superiors' policies in these federations are satisfiable"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(chk.thorough)) +
                                 list(anchor_histories(chk.thorough)), 96))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "all graphs of three authorities x anchors x requests, faults, lifetimes, and all "
                "histories of 8 operations up to the stated length followed by two requests; all histories of 12 "
                "operations up to one less with the anchor's configuration asked for and forged; every "
                "response judged by re-verifying the statements in it",
        "history_length": 4 if chk.thorough else 3, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
