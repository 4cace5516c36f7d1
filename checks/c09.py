"""C09: the list endpoint returns exactly the subordinates fulfilling all the conditions asked for.

All sets of up to three registered subordinates out of a pool covering the registration attributes and
the trust marks they publish, times all requests, times the faults of one subordinate's site."""
import mc.env  # noqa
import itertools
import json

from mc.env import Clock, T0
from mc.fed import ES_TYPE, fresh_world, jwks, make_entity, sign
from mc.report import Check, Result, chunked, parallel

ME = "https://sup.example.com"
TYPES = ["openid_relying_party", "openid_provider"]
TM1, TM2 = "https://marks.example.com/1", "https://marks.example.com/2"


def mark(mid, sub, exp=3600):
    p = {"iss": "https://tmi.example.com", "sub": sub, "id": mid, "iat": T0 - 7200}
    if exp is not None:
        p["exp"] = T0 + exp
    return sign(p, 6, headers={"typ": "trust-mark+jwt"})


MARKS = {
    "none": lambda s: None, "empty": lambda s: [], "1": lambda s: [mark(TM1, s)],
    "2": lambda s: [mark(TM2, s, None)], "1+2": lambda s: [mark(TM2, s), mark(TM1, s)],
    "1 expired": lambda s: [mark(TM1, s, -100)],
    "1 of another": lambda s: [mark(TM1, "https://another.example.com")],
    "1 expired+2": lambda s: [mark(TM1, s, -100), mark(TM2, s)],
}
# What's malformed among them isn't there
BADMARKS = {
    "garbage": lambda s: "garbage", "dots": lambda s: "a.b.c", "empty": lambda s: "", "number": lambda s: 7,
    "null": lambda s: None, "list": lambda s: [], "payload list": lambda s: sign([TM1], 6),
    "payload string": lambda s: sign(TM1, 6), "exp string": lambda s: sign(
        {"iss": "https://tmi.example.com", "sub": s, "id": TM1, "iat": T0, "exp": "never"}, 6),
    "exp null": lambda s: sign({"iss": "https://tmi.example.com", "sub": s, "id": TM1, "iat": T0, "exp": None}, 6),
    "id list": lambda s: sign({"iss": "https://tmi.example.com", "sub": s, "id": [TM1], "iat": T0}, 6),
}
MALFORMED = {f"{b}+2": (lambda s, f=f: [f(s), mark(TM2, s)]) for b, f in BADMARKS.items()}
MALFORMED.update({"2+" + b: (lambda s, f=f: [mark(TM2, s), f(s)]) for b, f in BADMARKS.items()})
MALFORMED.update({"just " + b: (lambda s, f=f: f(s)) for b, f in BADMARKS.items()})
POOL = []
for _n, (_types, _int) in enumerate(itertools.product(
        ([], TYPES[:1], TYPES[1:], TYPES, None), (None, True, False))):
    POOL.append((_types, _int, list(MARKS)[_n % len(MARKS)]))
for _n, _m in enumerate(MARKS):
    POOL.append(([TYPES[_n % 2]], [None, True][_n // 2 % 2], _m))
    POOL.append((TYPES, [True, None][_n // 2 % 2], _m))
SITE_FAULTS = [None, "404", "no connection", "wrong key", "expired", "another's", "garbage",
               "about another", "just expired", "no sub", "exp string", "a list"]

TRUE, FALSE = ["true", "True", True, "1"], ["false", "False", False, "0"]
REQUESTS = [{}]
for et, im, tm, ti in itertools.product((None, *TYPES, "federation_entity", "openid"),
                                        (None, *TRUE[:3], *FALSE[:3]), (None, *TRUE[:3], *FALSE[:3]),
                                        (None, TM1, TM2, "https://marks.example.com/")):
    r = {}
    for k, v in [("entity_type", et), ("intermediate", im), ("trust_marked", tm),
                 ("trust_mark_id", ti)]:
        if v is not None:
            r[k] = v
    if r:
        REQUESTS.append(r)
    if len(r) == 1:
        REQUESTS.append(dict(r, client_id="https://someone.example.com"))


def simple(r):
    """Each boolean in one spelling only"""
    return all(v in ("true", "false") for k, v in r.items() if k in ("intermediate", "trust_marked"))


def eid(n):
    return f"https://s{n}.example.com"


def matches(entry, n, req, fault):
    types, inter, marks = entry
    if "entity_type" in req and req["entity_type"] not in (types or []):
        return False
    if req.get("intermediate") in TRUE and not inter:
        return False
    if req.get("trust_marked") in TRUE or "trust_mark_id" in req:
        if fault:
            return False
        have = {"1": [TM1], "2": [TM2], "1+2": [TM1, TM2], "1 expired+2": [TM2]}.get(marks, [])
        if marks in MALFORMED and not marks.startswith("just"):
            have = [TM2]
        if not have or ("trust_mark_id" in req and req["trust_mark_id"] not in have):
            return False
    return True


def run(res, entries, faults, reqs):
    Clock.reset()
    w = fresh_world()
    fe = make_entity(ME, 1, endpoints=["entity_configuration", "fetch", "list", "resolve"])
    for n, (types, inter, marks) in enumerate(entries):
        reg = {"jwks": jwks(2 + n)}
        if types is not None:
            reg["entity_types"] = types
        if inter is not None:
            reg["intermediate"] = inter
        fe.server.subordinate[eid(n)] = reg
        fault = faults[n]

        def ec(q, n=n, marks=marks, fault=fault):
            if fault == "404":
                return 404, "text/plain", "no"
            if fault == "no connection":
                import requests
                raise requests.exceptions.ConnectionError("down")
            if fault == "garbage":
                return 200, ES_TYPE, "garbage"
            who = eid(n)
            p = {"iss": who, "sub": who, "iat": T0 - 7200, "exp": T0 + 3600, "jwks": jwks(2 + n),
                 "authority_hints": [ME], "metadata": {"federation_entity": {}}}
            key = 2 + n
            if fault == "another's":
                other = (n + 1) % len(entries)
                p.update(iss=eid(other), sub=eid(other), jwks=jwks(2 + other))
                key = 2 + other
            if fault == "wrong key":
                key = 9
            if fault == "expired":
                p["exp"] = T0 - 100
            if fault == "just expired":
                p["exp"] = T0 - 3
            if fault == "about another":    # whatever that one might mean by it
                p["sub"] = eid((n + 1) % max(2, len(entries)))
            if fault == "no sub":
                del p["sub"]
            if fault == "exp string":
                p["exp"] = "never"
            if fault == "a list":
                p = [p]
            ms = {**MARKS, **MALFORMED}[marks](who)
            if ms is not None and fault != "a list":
                p["trust_marks"] = ms
            return 200, ES_TYPE, sign(p, key)

        w.add(eid(n) + "/.well-known/openid-federation", ec)
    ep = fe.server.endpoint["list"]
    for req in reqs:
        res.count("requests")
        want = sorted(eid(n) for n, e in enumerate(entries) if matches(e, n, req, faults[n]))
        try:
            parsed = dict(req)    # client_id: what parsing leaves behind after authentication
            if req and "client_id" not in req:
                parsed = ep.parse_request(parsed)
            r = ep.process_request(parsed)
            got = json.loads(r["response_msg"])
        except Exception as err:
            got = repr(err)
        if not isinstance(got, list) or sorted(got) != want:
            res.violation(f"{req}:{entries}:{faults}", f"{req} among {entries} with site faults "
                          f"{faults}: {got} instead of {want}",
                          {"entries": entries, "faults": faults, "req": req})
        else:
            if want:
                res.count("nonempty answers")
            if 0 < len(want) < len(entries):
                res.states.add(repr((entries, req)))
                res.sample({"registered": entries, "request": req, "listed": got})


def work(chunk):
    res = Result()
    for entries, faults, reqs in chunk:
        run(res, entries, faults, reqs)
    return res


def cases(thorough):
    some = [r for r in REQUESTS if simple(r)]
    yield [], [], REQUESTS
    for e in POOL:
        yield [e], [None], REQUESTS
        for f in SITE_FAULTS[1:]:
            if f != "another's":
                yield [e], [f], some
    for m in MALFORMED:
        for types in (TYPES[:1], TYPES):
            yield [(types, None, m)], [None], REQUESTS
            for other in ("1", "1+2", "none"):
                yield [(types, None, m), (TYPES, True, other)], [None, None], some
                yield [(TYPES, True, other), (types, None, m)], [None, None], some
    pairs = list(itertools.combinations(POOL, 2))
    for n, (a, b) in enumerate(pairs):
        yield [a, b], [None, None], REQUESTS if thorough else some
        for m, f in enumerate(SITE_FAULTS[1:]):
            if thorough or (n + m) % 8 == 0:
                yield [a, b], [f, None], some
                yield [b, a], [None, f], some
    if thorough:
        for t in itertools.combinations(POOL, 3):
            yield list(t), [None] * 3, some[::3]


def main():
    chk = Check("C09", "exploration", [
        "trust marks are recognised by what they claim; their signatures are not this endpoint's "
        "business"])
    if chk.replay:
        c = chk.replay["case"]
        res = Result()
        run(res, [tuple(e) for e in c["entries"]], c["faults"], [c["req"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    todo = list(cases(chk.thorough))
    res = parallel(work, chunked(todo, 96))
    chk.finish(res, {
        "evaluations": res.counts["requests"], "distinct_nontrivial": len(res.states),
        "rule": f"all single subordinates, pairs (thorough: triples) from a pool of {len(POOL)} x up "
                f"to {len(REQUESTS)} requests x {len(SITE_FAULTS)} answers of a subordinate's site; "
                "nontrivial: a proper, nonempty subset is listed",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
