"""C05: path length and naming constraints of every superior bind everything below it."""
import mc.env  # noqa
import itertools
from urllib.parse import urlparse

from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, make_entity, sign
from mc.report import Check, Result, chunked, parallel

TA = "https://ta.example.net"
NAMES = {
    1: ["https://i.example.com", "https://i.other.org:8443/fed"],
    2: ["https://j.example.com", "https://j.other.org"],
    3: ["https://k.example.com"],
}
LEAVES = ["https://leafexample.com", "https://leaf.example.com", "https://leaf.example.com:8443/oidc/rp", "https://example.com",
          "https://LEAF.deep.example.com/", "https://leaf.other.org/path.example.com",
          "https://leaf.badexample.com"]
C = [
    None, {}, {"max_path_length": 0}, {"max_path_length": 1}, {"max_path_length": 2},
    {"naming_constraints": {"permitted": ["https://.example.com"]}},
    {"naming_constraints": {"permitted": ["https://.other.org"]}},
    {"naming_constraints": {"permitted": ["https://.example.com", "https://.other.org"]}},
    {"naming_constraints": {"excluded": ["https://.example.com"]}},
    {"naming_constraints": {"excluded": ["https://leaf.example.com"]}},
    {"naming_constraints": {"excluded": ["https://.other.org", "https://i.example.com"]}},
    {"naming_constraints": {"excluded": ["https://.deep.example.com"]}},
    {"naming_constraints": {"permitted": ["https://.example.com"],
                            "excluded": ["https://.deep.example.com"]}},
    {"max_path_length": 1, "naming_constraints": {"excluded": ["https://.example.net"]}},
    {"naming_constraints": {"permitted": ["https://.com", "https://i.other.org"]}},
]
CS = [C[i] for i in (0, 2, 3, 4, 5, 8, 9, 10)]
KEYOF = {0: 1, 1: 2, 2: 3, 3: 4, 4: 5}


def inside(entity_id, spec):
    host = (urlparse(entity_id).hostname or "").lower()
    dom = urlparse(spec).netloc.lower()
    if dom.startswith("."):
        return host.endswith(dom) and host != dom
    return host == dom


def expected(path, cons):
    """path: TA .. leaf; cons[i]: what path[i] states about path[i+1]"""
    n = len(cons)
    for i, c in enumerate(cons):
        if not c:
            continue
        below = path[i + 1:]
        if "max_path_length" in c and len(below) - 1 > c["max_path_length"]:
            return False, f"path length {c['max_path_length']} of level {i}"
        nc = c.get("naming_constraints", {})
        for b in below:
            if any(inside(b, s) for s in nc.get("excluded", [])):
                return False, f"{b} excluded by level {i}"
            if nc.get("permitted") and not any(inside(b, s) for s in nc["permitted"]):
                return False, f"{b} not permitted by level {i}"
    return True, ""


def token(iss, sub, key, subkey, cons):
    p = {"iss": iss, "sub": sub, "iat": T0 - 60, "exp": T0 + 3600, "jwks": jwks(subkey)}
    if cons is not None:
        p["constraints"] = cons
    return sign(p, key)


def one(res, fe, path, cons, own=None, ta_ec=None):
    n = len(cons)
    chain = [token(path[i], path[i + 1], KEYOF[i], KEYOF[i + 1], c) for i, c in enumerate(cons)]
    chain.append(token(path[-1], path[-1], KEYOF[n], KEYOF[n], own))
    if ta_ec is not None:
        chain.insert(0, token(TA, TA, KEYOF[0], KEYOF[0], ta_ec))
    try:
        tc, err = fe.function.verifier(chain), None
    except Exception as e:
        tc, err = None, repr(e)
    want, why = expected(path, cons)
    res.count("chains")
    res.count("allowed" if want else "forbidden")
    if bool(tc) != want:
        res.violation(f"{'accepted' if tc else 'refused'}:{path}:{cons}:{own}:{ta_ec}",
                      f"path {path} with constraints {cons}: "
                      f"{'accepted although ' + why if tc else 'refused without reason'} {err or ''}",
                      {"path": path, "cons": cons, "own": own, "ta_ec": ta_ec})
    elif not want:
        res.sample({"path": path, "constraints": cons, "refused because": why})


def observer():
    fresh_world()
    Clock.reset()
    return make_entity("https://obs.example.org", 0, trust_anchors={TA: jwks(KEYOF[0])})


def cases(thorough):
    for n in (1, 2, 3, 4):
        opts = C if n < 3 or (thorough and n == 3) else CS
        for mids in itertools.product(*[NAMES[i] for i in range(1, n)]):
            for leaf in (LEAVES if n < 4 or thorough else LEAVES[:2]):
                path = [TA, *mids, leaf]
                for cons in itertools.product(opts, repeat=n):
                    yield path, list(cons), None, None
                    if n < 3:
                        yield path, list(cons), {"max_path_length": 0, "naming_constraints": {
                            "permitted": ["https://nowhere.example"]}}, None
                        yield path, list(cons), None, {"max_path_length": 3}


def work(chunk):
    res = Result()
    fe = observer()
    for path, cons, own, ta_ec in chunk:
        one(res, fe, path, cons, own, ta_ec)
    return res


def main():
    chk = Check("C05", "exploration", [
        "a domain beginning with a dot means its proper subdomains, one without means that host "
        "(subdomains of such a host are not enumerated: the code treats them as covered)",
    ])
    if chk.replay:
        c = chk.replay["case"]
        res = Result()
        one(res, observer(), c["path"], c["cons"], c["own"], c["ta_ec"])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    todo = list(cases(chk.thorough))
    res = parallel(work, chunked(todo, 64))
    chk.finish(res, {
        "evaluations": res.counts["chains"], "distinct_nontrivial": len(todo),
        "rule": f"all chains of 1-4 superior statements with each carrying one of {len(C)} (longer: "
                f"{len(CS)}) constraint sets x name choices; signed and verified for real",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
