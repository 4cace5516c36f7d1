"""C04: applying a chain's metadata and policies to an entity's own metadata: exactly the stated
operators, per entity type and claim, nothing else touched, inputs left alone."""
import mc.env  # noqa
import copy
import itertools

from mc.policyref import Refused, apply, merge, norm, norm_md
from mc.report import Check, Result, chunked, parallel

T1, T2, T3 = "openid_relying_party", "openid_provider", "federation_entity"
POL1 = [
    {}, {"xx": {"value": "one"}}, {"xx": {"subset_of": ["one", "two"]}},
    {"xx": {"one_of": ["one", "two"]}}, {"xx": {"add": ["two"]}}, {"xx": {"default": "one"}},
    {"xx": {"essential": True}}, {"xx": {"superset_of": ["one"]}, "yy": {"value": ["k"]}},
    {"yy": {"default": ["k"], "subset_of": ["k", "l"]}}, {"yy": {"essential": True}},
    {"zz": {"default": True}}, {"ww": {"default": "w", "essential": True}, "yy": {"default": ["k"]}},
]
POL2 = [{}, {"xx": {"value": "other"}}, {"xx": {"essential": True}}]
MD1 = [{}, {"xx": "two"}, {"zz": "set"}, {"zz": "diff"}]
LEAF = [
    {T1: {}, T2: {"xx": "one"}},
    {T1: {"xx": "one", "zz": "own"}},
    {T1: {"xx": ["one", "two", "six"], "ww": {"deep": ["v"]}}, T2: {}},
    {T1: {"xx": "six", "yy": ["k", "m"]}, T2: {"xx": "one", "yy": ["q"]}},
    {T1: {"xx": ["two"], "yy": ["k"]}, T3: {"xx": "fed", "contacts": ["a@example.org"]}},
    {T2: {"xx": "own", "ww": 3}},
    {T1: {"xx": "", "yy": [], "zz": False, "ww": None}, T2: {"xx": 0}},
]
TAEC = {T1: {"xx": "ta", "zz": "ta"}, T3: {"xx": "ta", "organization_name": "TA"}}


def statements(pol1, pol2, md1):
    res = []
    for a, b, m in itertools.product(pol1, pol2, md1):
        if set(a) & set(m):
            continue    # ruled out within one statement
        st = {}
        mp = {t: p for t, p in ((T1, a), (T2, b)) if p}
        if mp:
            st["metadata_policy"] = mp
        if m:
            st["metadata"] = {T1: m}
        res.append(st)
    return res


def expected(sts, leaf):
    out = {}
    try:
        for t, md in leaf.items():
            out[t] = apply([s.get("metadata_policy", {}).get(t, {}) for s in sts],
                           [s.get("metadata", {}).get(t, {}) for s in sts], md)
    except Refused as err:
        return "refused", str(err)
    return "ok", out


def operators(pol):
    """for comparison; beside a fixed value, essential has no effect"""
    return {c: {o: norm(v) if isinstance(v, list) else norm([v]) for o, v in p.items()
                if not ("value" in p and o == "essential")} for c, p in pol.items()}


def one(res, eng, sts, leaf, with_ec, only):
    from fedservice.entity_statement.statement import TrustChain
    ids = [f"https://e{i}.example.org" for i in range(len(sts) + 1)]
    chain = [dict(copy.deepcopy(s), iss=ids[i], sub=ids[i + 1]) for i, s in enumerate(sts)]
    chain.append({"iss": ids[-1], "sub": ids[-1], "metadata": copy.deepcopy(leaf)})
    if with_ec:
        chain.insert(0, {"iss": ids[0], "sub": ids[0], "metadata": copy.deepcopy(TAEC)})
    before = copy.deepcopy(chain)
    tc = TrustChain(anchor=ids[0], verified_chain=chain)
    other = None
    try:
        eng(tc, only) if only else eng(tc)
        got = ("ok", tc.metadata)
        tc2 = TrustChain(anchor=ids[0], verified_chain=chain)
        eng(tc2, only) if only else eng(tc2)
        other = tc2.metadata
    except Exception as err:
        got = ("refused", repr(err))
    lf = {only: leaf[only]} if only else leaf
    want = expected(sts, lf)
    res.count("cases")
    res.count(want[0])
    wrong = None
    if chain != before:
        wrong = "mutated", f"the statements themselves were changed: {chain} was {before}"
    elif got[0] != want[0]:
        wrong = got[0], f"was {got}, should be {want}"
    elif got[0] == "ok":
        g = {t: norm_md(m) for t, m in got[1].items()}
        w = {t: norm_md(m) for t, m in want[1].items()}
        if g != w:
            wrong = "metadata", f"result {got[1]}, should be {want[1]}"
        elif {t: norm_md(m) for t, m in other.items()} != g:
            wrong = "repeat", f"a second time gives {other}, first {got[1]}"
        else:
            for t in lf:
                m = merge([s.get("metadata_policy", {}).get(t, {}) for s in sts])
                cp = (tc.combined_policy.get(t) or {}).get("metadata_policy", {})
                if operators(cp) != operators(m):
                    wrong = "combined", f"reported combined policy {cp}, should be {m}"
    if wrong:
        res.violation(f"{wrong[0]}:{sts}:{leaf}"[:160], f"superiors {sts}, leaf {leaf}"
                      f"{', TA configuration in chain' if with_ec else ''}: {wrong[1]}",
                      {"sts": sts, "leaf": leaf, "with_ec": with_ec, "only": only})
    elif want[0] == "ok" and len(sts) > 1 and all(sts):
        res.sample({"superiors": sts, "leaf": leaf, "result": got[1]})


def engine():
    from fedservice.entity.function.policy import TrustChainPolicy
    return TrustChainPolicy(None)


def work(chunk):
    res = Result()
    eng = engine()
    for sts in chunk:
        for leaf in LEAF:
            for with_ec in (False, True):
                one(res, eng, sts, leaf, with_ec, "")
            for t in leaf:
                one(res, eng, sts, leaf, False, t)
    return res


def main():
    chk = Check("C04", "exploration", [
        "list values are compared as sets",
        "no statement mentions the same claim in both metadata and metadata policy",
    ])
    if chk.replay:
        res = Result()
        c = chk.replay["case"]
        one(res, engine(), c["sts"], c["leaf"], c["with_ec"], c["only"])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    full = statements(POL1, POL2, MD1)
    part = statements(POL1[:7:2] + POL1[8:9], POL2[:2], MD1[:3])
    if chk.thorough:
        part = statements(POL1, POL2[:2], MD1[:3])
    todo = [(s,) for s in full] + list(itertools.product(full, repeat=2)) \
        + list(itertools.product(part, repeat=3))
    res = parallel(work, chunked(todo, 64))
    chk.finish(res, {
        "evaluations": res.counts["cases"], "distinct_nontrivial": res.counts["cases"],
        "rule": f"all chains of one or two of {len(full)} superior statements and of three of "
                f"{len(part)}, x {len(LEAF)} leaf configurations, x with and without the anchor's "
                "own configuration, x all or one entity type",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
