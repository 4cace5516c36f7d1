"""C06: trust chain discovery finds every way up to a trust anchor, terminates, and a failing
authority only costs the paths through it."""
import mc.env  # noqa
import itertools

from mc.env import Clock
from mc.fed import fresh_world, jwks, make_entity
from mc.graph import EC_FAULTS, FETCH_FAULTS, Graph, eid, simple_paths
from mc.report import Check, Result, chunked, parallel

from fedservice.entity.function import (apply_policies, collect_trust_chains,
                                        get_verified_trust_chains, verify_trust_chains)

KEY = {"L": 1, "A": 2, "B": 3, "C": 4, "D": 5}


class TooMany(BaseException):
    pass


def observer(anchors):
    return make_entity("https://obs.example.org", 0,
                       trust_anchors={eid(a): jwks(KEY[a]) for a in anchors})


def paths(trust_chains):
    names = {eid(n): n for n in KEY}
    return sorted(tuple(names.get(i, i) for i in tc.iss_path) for tc in trust_chains)


def expected(hints, anchors, faults, cut=()):
    """(required, allowed) paths. A fault on an authority's configuration costs all paths through
    it, one on its fetch endpoint the paths using the statement(s) concerned."""
    req, alw = set(), set()
    for p, maximal in simple_paths(hints, "L"):
        if p[-1] not in anchors:
            continue
        hit = False
        for sub, sup in zip(p, p[1:]):
            if (("ec", sup) in faults or ("fetch", sup, sub) in faults
                    or ("fetch", sup, "*") in faults or (sup, sub) in cut):
                hit = True
        if hit:
            continue
        alw.add(p)
        if maximal:
            req.add(p)
    return req, alw


def judge(res, case, got, req, alw, what):
    gs = set(got)
    if req - gs:
        res.violation(f"missed:{case}", f"{case} {what}: {sorted(req - gs)} not found, only "
                      f"{sorted(gs)}", case)
        return False
    if gs - alw:
        res.violation(f"bogus:{case}", f"{case} {what}: {sorted(gs - alw)} must not be accepted",
                      case)
        return False
    if len(gs) != len(got):
        res.violation(f"twice:{case}", f"{case} {what}: the same chain more than once: {got}", case)
        return False
    return True


def one(res, case):
    hints = {k: list(v) for k, v in case["hints"].items()}
    anchors = case["anchors"]
    faults = {tuple(k): f for k, f in case.get("faults", [])}
    about, cut = {}, set()
    for sup, sub in case.get("contradict", []):
        # this authority's policy can't be satisfied by the leaf
        about[(sup, sub)] = {"metadata_policy": {"federation_entity": {
            "organization_name": {"one_of": ["nobody"]}}}}
        cut.add((sup, sub))
    Clock.reset()
    w = fresh_world()
    g = Graph(hints, KEY, faults, case.get("life", 3600), case.get("ec_life", 3600), about)
    g.serve(w)
    limit = 600
    orig = w.request

    def request(method, url, **kw):
        if len(w.log) > limit:
            raise TooMany()
        return orig(method, url, **kw)

    w.request = request
    fe = observer(anchors)
    req, alw = expected(hints, anchors, faults, cut)
    res.count("evaluations")
    res.count("chains required", len(req))
    res.states.add((tuple(sorted(alw)), tuple(sorted(anchors))).__repr__())
    try:
        got = paths(get_verified_trust_chains(fe, eid("L")))
    except TooMany:
        res.violation(f"endless:{case}", f"{case}: more than {limit} requests", case)
        return
    except Exception as err:
        res.violation(f"crash:{case}", f"{case}: {err!r} although {sorted(req)} required", case)
        return
    if not judge(res, case, got, req, alw, ""):
        return
    if not faults and case.get("life", 3600) > 900 and case.get("ec_life", 3600) > 900:
        dup = [r for r in g.requests if g.requests.count(r) > 1]
        if dup:
            res.violation(f"repeat:{case}", f"{case}: fetched repeatedly {sorted(set(dup))}", case)
            return
    if case.get("extra"):
        # again, with everything in the caches; handed the entity's configuration; stopping early
        try:
            got2 = paths(get_verified_trust_chains(fe, eid("L")))
            if not judge(res, case, got2, req, alw, "second time"):
                return
            fe2 = observer(anchors)
            chains, ec = collect_trust_chains(fe2, eid("L"), signed_entity_configuration=g.ec("L"))
            got3 = paths(apply_policies(fe2, verify_trust_chains(fe2, chains, ec)))
            if not judge(res, case, got3, req, alw, "given the entity configuration"):
                return
            for stop in anchors:
                fe3 = observer(anchors)
                req3 = {p for p in alw if p[-1] == stop}
                chains, ec = collect_trust_chains(fe3, eid("L"), stop_at=eid(stop))
                got = paths(verify_trust_chains(fe3, chains, ec))
                if not judge(res, case, got, req3, alw, f"stopping at {stop}"):
                    return
                res.count("stop_at runs")
        except TooMany:
            res.violation(f"endless:{case}", f"{case}: more than {limit} requests", case)
        except Exception as err:
            res.violation(f"crash:{case}", f"{case}: {err!r}", case)
    if req:
        res.sample({"hints": hints, "faults": case.get("faults"), "found": sorted(got)})


def subsets(x, most=9):
    return [c for n in range(len(x) + 1) for c in itertools.combinations(x, n) if n <= most]


def cases(thorough):
    # all graphs of three authorities, self reference and loops included
    full = list(itertools.product(subsets("ABC")[1:], *[subsets("ABC")] * 3))
    for n, (l, a, b, c) in enumerate(full):
        for anchors in ("ABC", "C", "AC") if thorough else (("ABC", "C", "AC")[n % 3],):
            yield {"hints": {"L": l, "A": a, "B": b, "C": c}, "anchors": anchors,
                   "extra": thorough or n % 4 == 0}
    # authorities hinting back at the leaf, duplicate hints, reverse order
    for a, b in itertools.product(subsets("LAB"), subsets("LABC")):
        yield {"hints": {"L": ("B", "A", "B"), "A": a, "B": b[::-1], "C": ("L",)}, "anchors": "AC",
               "extra": True}
    # faults
    base = [
        {"L": "AB", "A": "C", "B": "C"}, {"L": "BA", "A": "C", "B": "C"}, {"L": "ABC"},
        {"L": "A", "A": "BC"}, {"L": "A", "A": "CB"}, {"L": "AC", "A": "BC", "B": "C"},
        {"L": "AB", "A": "B", "B": "AC"}, {"L": "AB", "A": "CD", "B": "DC"},
        {"L": "A", "A": "B", "B": "CD", "D": "C"}, {"L": "ABCD"}, {"L": "AB", "A": "C", "B": "D"},
    ]
    for h in base:
        auth = sorted(set("".join(h.values())))
        edges = [(s, u) for u in h for s in h[u]]
        single = [(("ec", x), f) for x in auth for f in EC_FAULTS]
        single += [(("fetch", s, u), f) for s, u in edges for f in FETCH_FAULTS]
        single += [(("fetch", s, "*"), f) for s in auth for f in ("404", "no connection")]
        for f in single:
            yield {"hints": h, "anchors": "CD", "faults": [f]}
            if thorough:
                yield {"hints": h, "anchors": "ABCD", "faults": [f], "extra": True}
        few = single if thorough else [f for f in single if f[1] in ("404", "bad signature")]
        for f, g in itertools.combinations(few, 2):
            if f[0] != g[0]:
                yield {"hints": h, "anchors": "CD", "faults": [f, g]}
        for e in edges:
            yield {"hints": h, "anchors": "CD", "contradict": [e]}
        for e, f in itertools.combinations(edges, 2):
            yield {"hints": h, "anchors": "ABCD", "contradict": [e, f]}
        for life, ec_life in itertools.product((5, 200, 1000, 3600), repeat=2):
            yield {"hints": h, "anchors": "CD", "life": life, "ec_life": ec_life}
    if thorough:
        some = subsets("ABCD", 2)
        for l, a, b, c, d in itertools.product(subsets("ABCD")[1:], some, some, some,
                                               [(), ("A",), ("C", "B")]):
            if l == tuple(sorted(l)):
                yield {"hints": {"L": l, "A": a, "B": b, "C": c, "D": d}, "anchors": "BD"}


def work(chunk):
    res = Result()
    for case in chunk:
        one(res, case)
    return res


def main():
    chk = Check("C06", "fault_enumeration", [
        "a fault answers every request for that document the same way",
        "collection goes on above a trust anchor that has superiors: chains ending at such an "
        "anchor are neither required nor forbidden",
    ])
    if chk.replay:
        c = chk.replay["case"]
        res = Result()
        one(res, c)
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    todo = list(cases(chk.thorough))
    res = parallel(work, chunked(todo, 96))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "all authority graphs over three authorities (self references, loops, back "
                "references), and 11 graphs with every single fault and pairs of faults from "
                f"{len(EC_FAULTS)} configuration and {len(FETCH_FAULTS)} fetch answers; "
                "real collector and verifier over a fake HTTP layer",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
