"""C23: looking for entities in the federation finds exactly those trust chains and trust marks vouch for.

All small federations (loops included) of two trust anchors, two intermediates and two leaves, all single and
double failures and lies of those in them, and all questions, against a reading of the graph."""
import mc.env  # noqa
import itertools
import json

from checks.c09 import BADMARKS
from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, make_entity, sign
from mc.graph import Graph, eid
from mc.report import Check, Result, chunked, digest, parallel

KEY = {"W": 0, "L": 1, "A": 2, "B": 3, "M": 4, "N": 5, "K": 6, "T": 7, "X": 9}
ISSUER = "openid_credential_issuer"
PID, DIPLOMA = "PersonIdentificationData", "Diploma"
TM1, TM2 = "https://tm.example.org/one", "https://tm.example.org/two"
AUTHORITIES = "ABMN"
LIMIT = 700


class TooMany(BaseException):
    pass


# descriptions of credentials that aren't: beside a good one (in a list) or instead
ODD = {"text": ["x"], "nothing": [None], "number": [7], "lists": [[]], "no definition": [{}],
       "definition null": [{"credential_definition": None}], "definition text": [{"credential_definition": "x"}],
       "type null": [{"credential_definition": {"type": None}}], "type number": [{"credential_definition": {"type": 7}}],
       "just text": "x", "just number": 7, "an object": {"a": {"credential_definition": {"type": [DIPLOMA]}}}}

RAW = {"just a number": 7, "just text": "x", "just an object": {"a": 1}, "just true": True}


class Fed23(Graph):
    """about[(issuer, subject)] as in Graph; lists[name]: what the list endpoint does"""

    def __init__(self, case):
        hints = {k: list(v) for k, v in case["hints"].items()}
        hints.update({"T": ["A", "B"] if case.get("tmi") != "B" else ["B"], "X": [], "W": ["A"]})
        faults = {tuple(k): f for k, f in case.get("faults", [])}
        super().__init__(hints, dict(KEY), {k: f for k, f in faults.items() if k[0] in ("ec", "fetch")})
        self.all_faults = faults
        self.lists = {k[1]: f for k, f in faults.items() if k[0] == "list"}
        self.types = {"L": [ISSUER], "K": ["openid_relying_party", ISSUER]}
        self.types.update(case.get("types", {}))
        self.marks = case.get("marks", {})
        self.status = case.get("status", "good")
        self.creds = {"L": [PID], "K": [DIPLOMA, PID]}
        self.creds.update(case.get("creds", {}))
        self.moved = case.get("moved", ())
        for n in KEY:
            md = {"federation_entity": {"organization_name": n, "federation_fetch_endpoint": eid(n) + "/fetch"}}
            if n in AUTHORITIES + "W":
                md["federation_entity"]["federation_list_endpoint"] = eid(n) + "/list"
            if n == "T":
                md["federation_entity"]["federation_trust_mark_status_endpoint"] = eid(n) + "/status"
            for t in self.types.get(n, []):
                md[t] = {"credential_issuer": eid(n)}
                if t == ISSUER:
                    md[t]["credentials_supported"] = self.supported(n)
            self.metadata[n] = md
        for n in self.moved:    # the superiors have the say
            for sup in hints[n]:
                self.about[(sup, n)] = {"metadata": {"federation_entity": {
                    "federation_list_endpoint": eid(n) + "/list2"}}}
        for sup, n in case.get("stripped", []):
            self.about[(sup, n)] = {**self.about.get((sup, n), {}), "metadata_policy": {ISSUER: {"credential_issuer": {"one_of": ["nobody"]}}}}

    def supported(self, n):
        creds = self.creds.get(n)
        if isinstance(creds, str) and creds in ODD:
            good = {"format": "jwt", "credential_definition": {"type": ["VerifiableCredential", DIPLOMA]}}
            odd = ODD[creds]
            return [odd[0], good, odd[0]] if isinstance(odd, list) else odd
        if creds == "string":
            return [{"credential_definition": {"type": PID}}]
        return [{"format": "jwt", "credential_definition": {"type": ["VerifiableCredential", c]}} for c in creds]

    def ec(self, n, fault=None):
        tok = super().ec(n, fault)
        if n not in self.marks or fault:
            return tok
        from mc.fed import payload_of
        if isinstance(self.marks[n], str):
            return sign(dict(payload_of(tok), trust_marks=RAW[self.marks[n]]), KEY[n])
        return sign(dict(payload_of(tok), trust_marks=[self.mark(n, m) for m in self.marks[n]]), KEY[n])

    def mark(self, n, kind):
        p = {"iss": eid("T"), "sub": eid(n), "id": TM1, "iat": T0 - 100}
        key = KEY["T"]
        if kind == "expired":
            p["exp"] = T0 - 10
        elif kind == "another":
            p["sub"] = eid("X")
        elif kind == "other id":
            p["id"] = TM2
        elif kind == "forged":
            key = KEY["X"]
        elif kind == "foreign":
            p["iss"], key = eid("X"), KEY["X"]
        elif kind == "garbage":
            return "x.y.z"
        elif kind in BADMARKS:
            return BADMARKS[kind](eid(n))
        return sign(p, key)

    def listed(self, n, query=None):
        q = query or {}
        subs = [k for k in self.hints if n in self.hints[k]]
        if "entity_type" in q:
            subs = [k for k in subs if q["entity_type"] in self.metadata[k]]
        if q.get("intermediate"):
            subs = [k for k in subs if k in AUTHORITIES]
        subs = [eid(k) for k in subs]
        lie = self.lists.get(n)
        subs = {"anchor": subs + [eid("A"), eid("B")], "self": subs + [eid(n), eid("W")],
                "unknown": [eid("X")] + subs + ["", "not a url"], "twice": subs * 2, "siblings":
                subs + [eid("L"), eid("K"), eid("N"), eid("M")],
                "strange": [1, None, {"a": 1}, ["b"]] + subs}.get(lie, subs)
        return subs

    def serve(self, w):
        super().serve(w)

        def reply(n, at):
            def func(q):
                how = self.lists.get(n)
                if at != (2 if n in self.moved else 1):
                    return 200, "application/json", json.dumps([eid("X"), eid("W")])
                if how == "no connection":
                    import requests
                    raise requests.exceptions.ConnectionError("down")
                raw = {"404": (404, "text/plain", "no"), "500": (500, "text/html", "<html>"),
                       "empty": (200, "application/json", ""), "garbage": (200, "text/html", "<html>"),
                       "error": (400, "application/json", '{"error": "invalid_request"}'),
                       "dict": (200, "application/json", json.dumps({"ids": self.listed(n, q)})),
                       "string": (200, "application/json", json.dumps(eid("L"))),
                       "number": (200, "application/json", "17"), "null": (200, "application/json", "null")}
                return raw.get(how) or (200, "application/json", json.dumps(self.listed(n, q)))
            return func
        for n in KEY:
            w.add(eid(n) + "/list", reply(n, 1))
            w.add(eid(n) + "/list2", reply(n, 2))

        def status(q):
            return {"good": (200, "application/json", json.dumps({"active": q.get("sub") in [
                        eid(n) for n in self.marks] and q.get("trust_mark_id", q.get("id")) == TM1})),
                    "inactive": (200, "application/json", '{"active": false}'),
                    "unknown": (200, "application/json", '{"status": "unknown"}'),
                    "yes": (200, "application/json", '{"active": "yes"}'), "list": (200, "application/json", "[]"),
                    "error": (404, "application/json", '{"error": "not_found"}'),
                    "500": (500, "text/plain", "boom"), "garbage": (200, "text/html", "<html>")}[self.status]
        w.add(eid("T") + "/status", status)

    # ------------------------------------------------------------------ the reading of the graph
    BROKEN_LIST = ("404", "500", "no connection", "empty", "garbage", "error", "dict", "string", "number", "null")

    def chains(self, n, anchors):
        """Loop free paths from n up to one of the anchors where all documents are good"""
        res = []

        def ok(sub, sup):
            return not any(self.all_faults.get(f) for f in (
                ("ec", sup), ("fetch", sup, sub), ("fetch", sup, "*")))

        def walk(path):
            ups = [h for h in dict.fromkeys(self.hints.get(path[-1], [])) if h not in path]
            for u in ups:
                if ok(path[-1], u):
                    walk(path + [u])
            if not ups and path[-1] in anchors and len(path) > 1:
                res.append(path)
        if not self.all_faults.get(("ec", n)):
            walk([n])
        return res

    def metadata_of(self, n, path):
        """Policies can only make a chain fail"""
        return not any("metadata_policy" in self.about.get((sup, sub), {}) and ISSUER in self.metadata[n]
                       for sub, sup in zip(path, path[1:]))

    def ref_list(self, n, query):
        if self.lists.get(n) in self.BROKEN_LIST or n not in AUTHORITIES + "W":
            return []
        return [x for x in self.listed(n, query) if isinstance(x, str)]

    def ref_trawl(self, sup, sub, typ, anchors, seen):
        names = {eid(k): k for k in KEY}
        if (sup, sub) in seen or sub not in KEY:
            return set()
        seen.add((sup, sub))
        if not [p for p in self.chains(sub, anchors) if p[1] == sup and self.metadata_of(sub, p)]:
            return set()
        found = {eid(sub)} if typ in self.metadata[sub] else set()
        found |= set(self.ref_list(sub, {"entity_type": typ}))
        for x in self.ref_list(sub, {"intermediate": "True"}) if sub in AUTHORITIES + "W" else []:
            found |= self.ref_trawl(sub, names.get(x, x), typ, anchors, seen)
        return found

    def ref_who(self, anchor, typ, cred, tm, anchors):
        names = {eid(k): k for k in KEY}
        found, seen = set(), set()
        subs = self.ref_list(anchor, {})
        if anchor != "W" and self.all_faults.get(("ec", anchor)):
            subs = []
        if anchor == "W":
            subs = [eid(k) for k in self.hints if "W" in self.hints[k]]
        for s in subs:
            found |= self.ref_trawl(anchor, names.get(s, s), typ, anchors, seen)
        res = set()
        for x in found:
            n = names.get(x)
            if n is None or typ not in self.metadata[n]:
                continue
            if not [p for p in self.chains(n, anchors) if p[-1] == anchor and self.metadata_of(n, p)]:
                continue
            if typ == ISSUER and cred:
                creds = self.creds.get(n, [])
                if isinstance(creds, str) and creds in ODD:
                    creds = [DIPLOMA] if isinstance(ODD[creds], list) else []
                    if not creds and cred:
                        continue
                if cred not in ([PID] if creds == "string" else creds + ["VerifiableCredential"]):
                    continue
            if tm and not (tm == TM1 and "good" in self.marks.get(n, ()) and self.status == "good" and
                           self.chains("T", anchors)):
                continue
            res.add(x)
        return res


def keys(e):
    return {o: sorted(k.kid for k in e.keyjar.get_signing_key("RSA", o)) for o in sorted(e.keyjar.owners())}


def one(res, case):
    Clock.reset()
    fed = Fed23(case)
    w = fresh_world()
    fed.serve(w)
    orig = w.request

    def request(method, url, **kw):
        if len(w.log) > LIMIT:
            raise TooMany()
        return orig(method, url, **kw)
    w.request = request
    anchors = case.get("anchors", "AB")
    kw = {}
    is_anchor = any("W" in v for v in case["hints"].values())
    if is_anchor:
        kw["subordinate"] = {eid(k): {"jwks": jwks(KEY[k])} for k in fed.hints if "W" in fed.hints[k]}
    e = make_entity(eid("W"), KEY["W"], authority_hints=[eid(h) for h in fed.hints["W"]],
                    trust_anchors={eid(a): jwks(KEY[a]) for a in anchors},
                    endpoints=["entity_configuration", "fetch", "list", "who"], services=[
                        "entity_configuration", "entity_statement", "list", "trust_mark_status"], **kw)
    before, tas = keys(e), json.dumps(e.trust_anchors, sort_keys=True)
    genuine = {eid(n): [f"k{KEY[n]:02d}"] for n in KEY}
    chain_anchors = anchors + "W" if is_anchor else anchors
    for q in case["ask"]:
        w.log.clear()
        res.count("evaluations")
        bad = None
        try:
            if q[0] == "trawl":
                got = e.trawl(eid(q[1]), eid(q[2]), q[3])
                want = fed.ref_trawl(q[1], q[2], q[3], chain_anchors, set())
            else:
                _, ta, args = q
                want = None
                if ta in (anchors + "W") and ta:
                    want = fed.ref_who(ta, "openid_relying_party" if args.get("entity_type") == "openid_relying_party"
                                       else ISSUER, args.get("credential_type", PID), args["trust_mark_id"],
                                       chain_anchors)
                got = e.server.endpoint["who"].process_request(dict(args), trust_anchor=eid(ta) if ta else "")
                got = got["response_args"]["entities_to_use"]
            if want is None:
                bad = f"answered {got}"
            elif set(got) != want or len(set(got)) != len(got):
                bad = f"found {got} instead of {sorted(want)}"
        except TooMany:
            bad = "endless"
        except Exception as err:
            if want is not None and (q[0] == "trawl" or want):
                bad = f"{err!r}, not {sorted(want)}"
        now = keys(e)
        if json.dumps(e.trust_anchors, sort_keys=True) != tas:
            bad = bad or "trust anchors changed"
        elif any(now.get(k) != v for k, v in before.items()):
            bad = bad or f"keys changed {now}"
        elif any(set(v) - set(genuine.get(k, [])) for k, v in now.items() if k not in before):
            bad = bad or f"keys {now}"
        if bad:
            res.violation(f"{bad[:25]}:{json.dumps(case, sort_keys=True)}", f"{bad[:300]}: {q} {case}", case)
            return
        res.states.add(digest([q, sorted(want or [])]))
        if want and "faults" in case:
            res.sample({"case": str(case)[:300], "ask": str(q), "found": sorted(want)})


EC = ["404", "no connection", "garbage", "empty", "json", "bad signature", "no jwks"]
FETCH = ["404", "500", "no connection", "garbage", "empty", "json", "bad signature", "expired", "about another",
         "by another"]
LIST = list(Fed23.BROKEN_LIST) + ["anchor", "self", "unknown", "twice", "siblings", "strange"]
TRAWLS = [("trawl", a, b, ISSUER) for a, b in ("AM", "AN", "MN", "NM", "ML", "BN", "AL", "NK")]
WHO = [("who", a, {"trust_mark_id": ""}) for a in "AB"]


def subsets(x):
    return [c for n in range(len(x) + 1) for c in itertools.combinations(x, n)]


def all_faults():
    for n in "ABMNLK":
        yield from ((("ec", n), f) for f in EC)
    for sup, sub in ("AM", "AN", "BN", "MN", "NM", "ML", "MK", "NK"):
        yield from ((("fetch", sup, sub), f) for f in FETCH)
    for n in AUTHORITIES:
        yield from ((("list", n), f) for f in LIST)


BASE = {"M": "AN", "N": "MB", "L": "M", "K": "MN"}
BASES = [BASE, {"M": "A", "N": "M", "L": "N", "K": "A"}]


def cases(thorough):
    # all graphs
    ups = ["ABMN", "ABMN", "AMN", "BMN"] if thorough else ["ABN", "ABM", "MN", "BMN"]
    for n, (m, nn, ll, k) in enumerate(itertools.product(*map(subsets, ups))):
        for anchors in ("A", "AB") if thorough else ("AB",):
            yield {"hints": {"M": m, "N": nn, "L": ll, "K": k}, "ask": WHO + (TRAWLS if thorough else TRAWLS[n % 3::3]),
                   "anchors": anchors}
    # all single failures and lies, all pairs of those
    faults = list(all_faults())
    few = faults if thorough else [f for f in faults if f[1] in ("404", "bad signature", "dict", "siblings")]
    for hints in BASES:
        for f in faults:
            yield {"hints": hints, "faults": [f], "ask": WHO + TRAWLS}
        for f, g in itertools.combinations(few, 2):
            if f[0] != g[0]:
                yield {"hints": hints, "faults": [f, g], "ask": WHO + TRAWLS[:2] if thorough else WHO[:1] + TRAWLS[:1]}
    # superiors moving list endpoints or not wanting somebody as an issuer of credentials
    for hints, moves in (BASE, [()]), (BASES[1], [(), "N"]), ({"M": "A", "N": "AB", "L": "M", "K": "NM"},
                                                            ["M", "N", "MN"]):
        for moved in moves:
            for stripped in ([], [("M", "L")], [("A", "M")], [("M", "K")], [("N", "K"), ("M", "K")], [("N", "L")]):
                yield {"hints": hints, "moved": moved, "stripped": stripped, "ask": WHO + TRAWLS[:3] + TRAWLS[5:6]}
    # the questions
    marks = ["good", "expired", "another", "other id", "forged", "foreign", "garbage"]
    kinds = [c for n in (0, 1, 2) for c in itertools.product(marks, repeat=n)]
    args = [{k: v for k, v in (("entity_type", et), ("credential_type", ct), ("trust_mark_id", tm)) if v is not None}
            for et in (None, ISSUER, "credential_issuer", "openid_relying_party") for ct in (None, PID, DIPLOMA, "none")
            for tm in ("", TM1, TM2)]
    for hints in BASES + [{"M": "AW", "N": "W", "L": "M", "K": "N"}]:
        for l, k in itertools.product(kinds, [(), ("good",)]):
            for status in ("good", "inactive", "error", "500", "garbage", "unknown", "yes", "list") if thorough or len(l) < 2 else ("good", ):
                yield {"hints": hints, "marks": {"L": l, "K": k}, "status": status, "ask": [
                    ("who", ta, a) for ta in "AB" + ("W" if "W" in hints["M"] else "")
                    for a in args[1::3] if thorough or a.get("credential_type") in (None, DIPLOMA)]}
        for odd in BADMARKS:
            for l in ((odd,), (odd, "good"), ("good", odd)):
                yield {"hints": hints, "marks": {"L": l, "K": ("good", )}, "status": "good", "ask": [
                    ("who", ta, {"trust_mark_id": tm}) for ta in "AB" for tm in ("", TM1)]}
        for raw in RAW:
            yield {"hints": hints, "marks": {"L": raw, "K": ("good",)}, "status": "good", "ask": [
                ("who", ta, {"trust_mark_id": TM1}) for ta in "AB"]}
        for odd in ODD:
            for who in "LK":
                yield {"hints": hints, "creds": {who: odd}, "ask": [
                    ("who", ta, a) for ta in "AB" for a in args if not a["trust_mark_id"]]}
        for creds in ({}, {"L": "string"}, {"L": [DIPLOMA]}, {"K": []}):
            for types in ({}, {"L": ["openid_relying_party"]}, {"M": [ISSUER]}, {"L": [], "K": [ISSUER]}):
                for tmi in "AB":
                    yield {"hints": hints, "creds": dict({"M": [PID]}, **creds), "types": types, "tmi": tmi,
                           "marks": {"L": ["good"], "K": ["other id", "good"], "M": ["good"]},
                           "ask": [("who", ta, a) for ta in ["A", "B", "W", "X", "M", ""] for a in args]}
    for f in [(("ec", "T"), f) for f in EC] + [(("fetch", "A", "T"), f) for f in FETCH]:
        yield {"hints": BASE, "faults": [f, (("fetch", "B", "T"), f[1])] if f[0][0] == "fetch" else [f],
               "marks": {"L": ["good"], "K": ["good"]}, "ask": [("who", "A", {"trust_mark_id": TM1})] + WHO}


def work(chunk):
    res = Result()
    for case in chunk:
        one(res, dict(case, ask=[tuple(q) for q in case["ask"]],
                      faults=[(tuple(k), f) for k, f in case.get("faults", [])]))
    return res


def main():
    chk = Check("C23", "exploration", ["entities are asked one at a time, by one process",
                                       "trust mark issuers are judged in C14"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    res = parallel(work, chunked(list(cases(chk.thorough)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "all graphs of authority hints among two trust anchors, two intermediates and two leaves (quick: those "
                "without self reference), all single failures and lies in documents and lists, all pairs (quick: of "
                "one or two per document), moved list endpoints, contradicting policies, trust marks, and all questions; distinct are "
                "question and right answer",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
