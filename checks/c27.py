"""C27: what has been saved and is loaded again is what it was.

All histories, up to a depth, of questions, passing time and changes in the federation (C07's) with two observers,
of which one is now and then replaced by a new one that starts with what the other has saved (collected statements
and configurations, stored trust chains, the federation context; as JSON). They have to give the same answers and
to fetch the same documents. And all configurations of a federation context from a set, saved and loaded."""
import mc.env  # noqa
import itertools
import json

from checks.c07 import A, C, D, EVENTS, Fed, L, LIVES, M
from mc.env import Clock, T0
from mc.fed import WORLD, jwks, make_entity, payload_of, sign
from mc.report import Check, Result, chunked, digest, parallel

QUERIES = ["chains", "fe.get_trust_chains", "fe.get_verified_metadata", "chains of M", "stored", "remembered"]
CHANGES = ["leaf changes", "policy changes", "drop A", "A moves", "+650", "+701", "+950", "+2500"]
RESTART = "restart"


def plain(tc):
    return {"anchor": tc.anchor, "path": tc.iss_path, "exp": tc.exp, "chain": tc.chain, "claims": tc.claims(),
            "metadata": tc.metadata, "policy": tc.combined_policy, "verified": tc.verified_chain, "err": tc.err,
            "export": tc.export_chain(), "expired": tc.is_expired(), "keys": sorted(tc.keys()),
            "items": sorted(tc.items()), "rp": "openid_relying_party" in tc and tc["openid_relying_party"],
            "no": "oauth_client" in tc}


def observer():
    return make_entity("https://obs.example.org", 0, trust_anchors={C: jwks(4), D: jwks(6)})


def saved(fe):
    coll = fe.function.trust_chain_collector
    return json.dumps({"config": coll.config_cache.dump(), "statements": coll.entity_statement_cache.dump(),
                       "context": fe.context.dump(),
                       "chains": {e: [tc.dump() for tc in tcs] for e, tcs in fe.trust_chain.items()}})


def loaded(text):
    from fedservice.entity_statement.cache import ESCache
    from fedservice.entity_statement.statement import TrustChain
    info = json.loads(text)
    fe = observer()
    coll = fe.function.trust_chain_collector
    coll.config_cache = ESCache().load(info["config"])
    coll.entity_statement_cache = ESCache().load(info["statements"])
    fe.context.load(info["context"])
    for e, tcs in info["chains"].items():
        fe.store_trust_chains(e, [TrustChain().load(tc) for tc in tcs])
    return fe


def ask(fe, q):
    """The answer, and what was fetched"""
    from fedservice.entity.function import get_verified_trust_chains
    w = WORLD[0]
    n = len(w.log)
    coll = fe.function.trust_chain_collector
    try:
        if q in ("chains", "chains of M"):
            r = [plain(tc) for tc in get_verified_trust_chains(fe, M if "M" in q else L)]
        elif q == "fe.get_trust_chains":
            r = [plain(tc) for tc in fe.get_trust_chains(L)]
        elif q == "fe.get_verified_metadata":
            r = fe.get_verified_metadata(L)
        elif q == "stored":
            r = {e: [plain(tc) for tc in tcs] for e, tcs in fe.trust_chain.items()}
        else:
            cc, sc = coll.config_cache, coll.entity_statement_cache
            r = [len(cc), len(sc), sorted(cc.keys()), sorted(sc.keys()), cc.allowed_delta, sc.allowed_delta]
            r += [[e, cc[e], e in cc, cc.get(e, 0)] for e in (L, A, C, D, M)]
            r += [[k, sc[k], k in sc] for k in sorted(sc.keys())]
    except Exception as err:
        r = f"no answer: {type(err).__name__}"
    return json.loads(json.dumps(r, sort_keys=True, default=repr)), w.log[n:]


def history(res, case):
    f = Fed(tuple(case["lives"]))
    one, two = f.fe, observer()
    saves = []
    for n, op in enumerate(case["ops"]):
        res.count("transitions")
        if op == RESTART:
            was = saved(two)
            new = loaded(was)
            saves.append((two, was))
            if saved(new) != was:
                res.violation(f"saved:{case}", f"after {case['ops'][:n]}: what has been loaded is saved as something else", case)
                return
            two = new
        elif op in QUERIES:
            a, b = ask(one, op), ask(two, op)
            res.count("answers compared")
            if a != b:
                what = "the answer is" if a[0] != b[0] else "fetched are"
                i = 0 if a[0] != b[0] else 1
                res.violation(f"{op}:{case}", f"{op} after {case['ops'][:n]} with lifetimes {case['lives']}: {what} "
                              f"{str(b[i])[:250]}, without restart {str(a[i])[:250]}", case)
                return
        else:
            f.event(op)
        for old, was in saves:
            if saved(old) != was:
                res.violation(f"shared:{case}", f"after {case['ops'][:n + 1]}: what was saved has been changed by the one "
                              "that loaded it", case)
                return
        res.states.add(digest([n, Clock.now - T0, op, saved(one)]))
    res.count("histories")
    res.sample(case)


def histories(depth):
    for lives in LIVES[:2]:
        for h in itertools.product(QUERIES[:4] + CHANGES, repeat=depth - 1):
            if h[0] in CHANGES or any(a == b and a[0] != "+" for a, b in zip(h, h[1:])):
                continue
            for at in {tuple(sorted({i, len(h)})) for i in range(1, len(h) + 1)}:
                ops = list(h)
                for i in reversed(at):
                    ops.insert(i, RESTART)
                yield {"lives": lives, "ops": ops + ["stored", "remembered", "chains", "fe.get_trust_chains", "chains of M",
                                                     "fe.get_verified_metadata"]}


VALUES = {"authority_hints": [[], [A], [A, C]], "default_lifetime": [86400, 3600, 1], "tr_priority": [[], [C], [D, C]],
          "trust_marks": [[], [sign({"iss": A, "sub": L, "id": "m", "iat": 1}, 2)]],
          "trust_mark_issuer": [None, {"m": [A]}], "trust_mark_owners": [None, {"m": {"sub": A, "jwks": jwks(2)}}]}


def context(res, case):
    Clock.reset()
    e = observer()
    vals = case["context"]
    for k, v in vals.items():
        setattr(e.context, k, json.loads(json.dumps(v)))
    was = json.dumps(e.context.dump())
    n = observer()
    n.context.load(json.loads(was))
    bad = [k for k, v in vals.items() if getattr(n.context, k) != v]
    res.count("contexts")

    def said(fe):
        p = payload_of(fe.server.endpoint["entity_configuration"].process_request({})["response"])
        q = payload_of(fe.context.create_entity_statement(L, L))
        return [{k: v for k, v in x.items() if k not in ("jwks", "jti")} for x in (p, q)]
    if not bad and said(n) != said(e):
        bad = f"{said(n)}, not {said(e)}"
    n.context.authority_hints.append(D)
    n.context.trust_marks.append("x")
    if json.dumps(e.context.dump()) != was or e.context.authority_hints != vals["authority_hints"]:
        bad = "changed by what happens to the one loaded"
    fresh = observer().context
    if fresh.authority_hints or fresh.trust_marks or fresh.default_lifetime != 86400:
        bad = "others are changed"
    if bad:
        res.violation(f"context:{case}", f"{vals} saved and loaded: {bad}"[:500], case)
    res.states.add(digest(vals))


def contexts():
    for vals in itertools.product(*VALUES.values()):
        yield {"context": dict(zip(VALUES, vals))}


def work(chunk):
    res = Result()
    for case in chunk:
        try:
            (context if "context" in case else history)(res, case)
        except Exception as err:
            res.violation(f"crash:{case}", f"{case}: {err!r}, saving and loading or while building what's compared", case)
    return res


def main():
    chk = Check("C27", "exploration", ["saved as JSON", "keys are kept elsewhere, and are the same"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 5 if chk.thorough else 4
    res = parallel(work, chunked(list(histories(depth)) + list(contexts()), 96))
    chk.finish(res, {
        "evaluations": res.counts["histories"] + res.counts["contexts"], "distinct_nontrivial": len(res.states),
        "rule": "all histories of 12 operations up to the stated length, a restart after any of them and at the end, then 6 "
                "questions to the one restarted and the one not; all combinations of values of a federation context",
        "history_length": depth - 1, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
