"""C03: what a chain of metadata policies lets through.

All pairs (and triples of a smaller set) of self-consistent policies for a claim x all values of
the leaf; the real policy code runs on a verified chain carrying them."""
import mc.env  # noqa
import itertools

from mc.policyref import ABSENT, Refused, apply, check_consistent, norm, satisfied
from mc.report import Check, Result, chunked, parallel

ET = "openid_relying_party"
DOM = {
    "value": [None, "a", "b", ["a"], ["a", "b"]],
    "add": [None, "a", ["a"], ["c"], ["b", "c"]],
    "default": [None, "a", "b", ["a"], ["b", "c"]],
    "one_of": [None, ["a"], ["a", "b"], ["b", "c"]],
    "subset_of": [None, ["a"], ["a", "b"], ["b", "c"], ["a", "b", "c"]],
    "superset_of": [None, ["a"], ["a", "b"], ["b", "c"]],
    "essential": [None, True, False],
}
# values longer than one character, so that strings are not mistaken for lists
LONG = {"a": "alpha", "b": "beta", "c": "gamma"}
VALUES = [ABSENT, "a", "b", "c", "", False, [], ["a"], ["b"], ["c"], ["a", "b"], ["b", "c"], ["a", "b", "c"],
          ["a", "d"]]


def ren(v):
    if isinstance(v, list):
        return [ren(x) for x in v]
    return LONG.get(v, v) if isinstance(v, str) else v


def policies(maxops):
    """every self-consistent claim policy with at most maxops operators"""
    res = []
    for combo in itertools.product(*DOM.values()):
        p = {k: ren(v) for k, v in zip(DOM, combo) if v is not None}
        if len(p) > maxops:
            continue
        try:
            check_consistent(p)
        except Refused:
            continue
        res.append(p)
    return res


OTHER = {"other": {"default": "filled"}, "last": {"essential": True}}


def run_real(pols, value, engine, setter=None):
    """setter: the level of the superior that sets the value, next to policies for other claims
    (None: the leaf itself)"""
    from fedservice.entity_statement.statement import TrustChain
    ids = [f"https://e{i}.example.org" for i in range(len(pols) + 1)]
    chain = [{"iss": ids[i], "sub": ids[i + 1], "metadata_policy": {ET: {"claim": dict(p)}}}
             if p else {"iss": ids[i], "sub": ids[i + 1]} for i, p in enumerate(pols)]
    md = {} if value == ABSENT else {"claim": value if not isinstance(value, list) else list(value)}
    if setter is not None:
        chain[setter]["metadata"] = {ET: md}
        for st in chain:
            st.setdefault("metadata_policy", {}).setdefault(ET, {}).update(OTHER)
        md = {"last": 1}
    chain.append({"iss": ids[-1], "sub": ids[-1], "metadata": {ET: md}})
    tc = TrustChain(anchor=ids[0], verified_chain=chain, iss_path=list(reversed(ids)))
    try:
        engine(tc)
    except Exception as err:
        return "refused", repr(err)
    return "ok", (tc.metadata.get(ET) or {}).get("claim", ABSENT)


def expected(pols, value):
    try:
        return "ok", apply([{"claim": p} for p in pols if p], [],
                           {} if value == ABSENT else {"claim": value}).get("claim", ABSENT)
    except Refused as err:
        return "refused", str(err)


def one(res, pols, value, engine, setter=None):
    if setter is not None and pols[setter]:
        return      # one statement both fixing a claim and having a policy for it
    got = run_real(pols, value, engine, setter)
    want = expected(pols, value)
    res.count("cases")
    res.count(want[0])
    case = {"policies": pols, "value": value, "setter": setter}
    wrong = None
    if got[0] == "ok":
        several = sum("superset_of" in p for p in pols) > 1
        for i, p in enumerate(pols):
            bad = satisfied(p, got[1], single_superset=not several)
            if bad:
                wrong = ("violates-" + bad, f"result {got[1]} breaks {bad} of the policy at level {i}")
    if wrong is None and got[0] != want[0]:
        wrong = ("refused" if got[0] == "refused" else "allowed",
                 f"was {got}, should be {want}")
    if wrong is None and got[0] == "ok" and norm(got[1]) != norm(want[1]):
        wrong = ("value", f"result {got[1]}, should be {want[1]}")
    if wrong:
        ops = "+".join(",".join(sorted(p)) for p in pols)
        res.violation(f"{wrong[0]}:{ops}", f"policies {pols} on {value}{'' if setter is None else f' set by level {setter}'}: "
                      f"{wrong[1]}", case)
    elif want[0] == "ok" and len(pols) > 1 and all(pols):
        res.sample({**case, "result": got[1]})


def engine():
    from fedservice.entity.function.policy import TrustChainPolicy
    return TrustChainPolicy(None)


def work(chunk):
    res = Result()
    eng = engine()
    for pols in chunk:
        for v in VALUES:
            one(res, pols, ren(v), eng)
            if v != ABSENT and len(pols) > 1:
                for setter in range(len(pols)):
                    one(res, pols, ren(v), eng, setter)
    return res


def main():
    chk = Check("C03", "exploration", [
        "list values are compared as sets",
        "each statement's own policy is free of contradictions",
    ])
    if chk.replay:
        res = Result()
        one(res, chk.replay["case"]["policies"], chk.replay["case"]["value"], engine(),
            chk.replay["case"]["setter"])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    big = policies(7 if chk.thorough else 3)
    small = policies(2 if chk.thorough else 1) + [{}]
    big.append({})
    todo = list(itertools.product(big, repeat=2))
    todo += list(itertools.product(small, repeat=3))
    todo += [(p,) for p in policies(7)]
    res = parallel(work, chunked(todo, 64))
    chk.finish(res, {
        "evaluations": res.counts["cases"], "distinct_nontrivial": res.counts["cases"],
        "rule": f"all pairs of {len(big)} policies and triples of {len(small)}, each on "
                f"{len(VALUES)} values stated by the leaf or set by a superior; all distinct",
        "exhaustive": True, "policies_pairs": len(big), "policies_triples": len(small),
    })


if __name__ == "__main__":
    main()
