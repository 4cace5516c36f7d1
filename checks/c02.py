"""C02: the verdict on a chain depends on the configured anchors and the time, not on what else
the entity has processed before.

Histories of operations on one real entity: verifying good and bad chains, being given another
trust anchor, a trust anchor changing keys, time passing. After every history a fixed set of probe
chains is verified and every verdict compared with the memoryless rule of C01."""
import mc.env  # noqa
import itertools

from checks import c01
from checks.c01 import ANCHOR_KEYS, I, J, L, M, TA1, TA2, X
from mc.env import Clock, T0
from mc.fed import jwks
from mc.report import Check, Result, chunked, digest, parallel

EVIL = "https://evil.example.org"
TA3 = "https://ta3.example.org"


def pool():
    c01.KEY.setdefault(TA3, 9)
    c01.KEY.setdefault(EVIL, 10)
    p = c01.build_pool()
    if not any(s[0] == "TA3>L" for s in p):
        c01.stm("TA3>L", TA3, L)
        c01.stm("TA1>X", TA1, X)
        c01.stm("X>TA1 rogue key", X, TA1, jwks_of=[6])
        c01.stm("X>I rogue key", X, I, jwks_of=[6])
        c01.stm("TA1>L by rogue key", TA1, L, key=6)
        c01.stm("TA1>L by newkey", TA1, L, key=8)
        c01.stm("TA1>EVIL", TA1, EVIL)
        c01.stm("EVIL>L", EVIL, L)
        c01.stm("EVIL>TA3 rogue key", EVIL, TA3, jwks_of=[6])
        c01.stm("TA3>L by rogue key", TA3, L, key=6)
        c01.stm("TA2>I other key", TA2, I, jwks_of=[6])
        c01.stm("I>L by other key", I, L, key=6)
        c01.stm("EC(TA1) by rogue key", TA1, TA1, key=6, jwks_of=[6])
    return {s[0]: s for s in p}


CHAINS = [
    # flawless from the start
    "TA1>I|I>L|EC(L)", "TA1>I|I>J|J>L|EC(L)", "TA2>J|J>L|EC(L)", "TA1>X|X>L|EC(L)",
    "TA1>EVIL|EVIL>L|EC(L)", "TA2>I other key|I>L by other key|EC(L)", "TA1>I|I>L short|EC(L)",
    "TA1>L|EC(L)",
    # genuine, but teaching something odd
    "TA1>X|X>TA1 rogue key|TA1>L by rogue key|EC(L)", "TA1>X|X>I rogue key",
    "TA1>EVIL|EVIL>TA3 rogue key|TA3>L by rogue key|EC(L)", "TA1>X|X>TA1 rogue key",
    "TA1>EVIL|EVIL>TA3 rogue key", "TA1>I|I>TA2 rogue key", "TA1>I|I>J rogue key",
    # not acceptable at first
    "TA3>L|EC(L)", "TA3>L by rogue key|EC(L)", "X>L|EC(L)", "X>I|I>L|EC(L)", "EC(X)",
    "TA1>L by rogue key|EC(L)", "TA1>L by newkey|EC(L)", "EVIL>L|EC(L)", "J>L|EC(L)",
    "TA1>I|I>L by other key|EC(L)", "TA1>J|J>L by rogue key|EC(L)", "TA2>L by rogue key|EC(L)",
    "TA1>I|J>L|EC(L)", "TA1>I|I>L expired|EC(L)", "TA1>I expired|I>L|EC(L)", "I>L|EC(L)", "EC(L)",
    "EC(TA1) by rogue key", "TA1>I samekid|I>L|EC(L)", "TA1>I|L about M|EC(M)",
]
ADMIN = ["trust TA3", "rekey TA1", "later 200 s"]
OPS = CHAINS + ADMIN


class Ctx:
    def __init__(self):
        Clock.reset()
        self.fe = c01.observer()
        self.anchors = {k: set(v) for k, v in ANCHOR_KEYS.items()}
        self.now = T0

    def seq(self, name):
        p = pool()
        return [p[x] for x in name.split("|")]

    def do(self, op):
        """-> what is wrong with the verdict, or None"""
        if op == "trust TA3":
            self.fe.function.trust_chain_collector.add_trust_anchor(TA3, jwks(9))
            self.anchors[TA3] = {9}
        elif op == "rekey TA1":
            self.fe.function.trust_chain_collector.add_trust_anchor(TA1, jwks(8))
            self.anchors[TA1] = {8}
        elif op == "later 200 s":
            self.now += 200
            Clock.now = self.now
        else:
            seq = self.seq(op)
            bad = c01.defects(seq, self.anchors, self.now)
            tc, err = c01.run_one(self.fe, seq)
            return c01.compare(seq, bad, tc, err)
        return None

    def state(self):
        kj = self.fe.keyjar
        col = self.fe.function.trust_chain_collector
        return digest({
            "keys": {o: sorted(k.thumbprint("SHA-256").decode() for k in kj.get_issuer_keys(o))
                     for o in sorted(kj.owners())},
            "anchors": sorted(col.trust_anchors), "now": self.now,
            "model": {k: sorted(v) for k, v in self.anchors.items()},
            "cache": sorted(col.config_cache.keys()) + sorted(col.entity_statement_cache.keys())})


def run_history(res, hist, probe=True):
    ctx = Ctx()
    for n, op in enumerate(hist):
        wrong = ctx.do(op)
        if wrong:
            res.violation(f"{wrong[0]}:{op}", f"{wrong[1]} after {list(hist[:n])}",
                          {"history": list(hist[:n]), "chain": op})
            return None
    st = ctx.state()
    if probe:
        for chain in CHAINS:
            wrong = ctx.do(chain)
            res.count("probes")
            if wrong:
                res.violation(f"{wrong[0]}:{chain}", f"{wrong[1]} after {list(hist)} and the "
                              "probes before it", {"history": list(hist), "chain": chain})
    return st


def work(hists):
    res = Result()
    for h in hists:
        st = run_history(res, h)
        res.count("histories")
        res.count("operations", len(h))
        if st:
            res.states.add(st)
        if len(h) > 1:
            res.sample({"history": list(h)})
    return res


def states_of(hists):
    res = Result()
    res.map = {}
    for h in hists:
        res.map[tuple(h)] = run_history(res, h, probe=False)
        res.count("transitions")
    return res


def main():
    chk = Check("C02", "model_checking", [
        "RS256 as implemented by cryptojwt/cryptography is trusted to verify correctly",
        "state abstraction: key jar content, anchors, cache keys, time; below the merge depth no "
        "histories are merged at all",
    ])
    if chk.replay:
        res = Result()
        run_history(res, chk.replay["case"]["history"] + [chk.replay["case"]["chain"]], probe=False)
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    pool()
    # unmerged: every history up to this length
    depth = 2
    hists = [h for n in range(depth + 1) for h in itertools.product(OPS, repeat=n)]
    total = parallel(work, chunked(hists, 64))
    # merged: breadth first over states
    seen, frontier, transitions = set(), [()], 0
    maxdepth = 12 if chk.thorough else 4
    limit = 200000 if chk.thorough else 6000
    complete = False
    level = 0
    while frontier and level < maxdepth and transitions < limit:
        nxt = []
        todo = [f + (op,) for f in frontier for op in OPS
                if op not in ADMIN or op not in f]
        parts = pmap(todo)
        transitions += len(todo)
        newh = []
        for h, st in parts:
            if st and st not in seen:
                seen.add(st)
                newh.append(h)
        r = parallel(work, chunked(newh, 64)) if newh else Result()
        r.states = set()
        total.merge(r)
        nxt = newh
        frontier = nxt
        level += 1
    complete = not frontier
    total.count("merged_transitions", transitions)
    chk.finish(total, {
        "states": len(total.states | seen), "transitions": transitions + total.counts["operations"],
        "traces_validated_against_impl": total.counts["histories"] + transitions,
        "depth_merged": level, "depth_unmerged": depth, "fixpoint_reached": complete,
        "exhaustive": True,
    })


def _st(todo):
    res = Result()
    res.pairs = []
    for h in todo:
        res.pairs.append((h, run_history(res, h, probe=False)))
    return res


class _Pairs(Result):
    def __init__(self):
        super().__init__()
        self.pairs = []


def pmap(todo):
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    with ctx.Pool(8) as pl:
        out = []
        for r in pl.imap_unordered(_st, chunked(todo, 64)):
            out.extend(r.pairs)
    return sorted(out, key=lambda x: (len(x[0]), x[0]))


if __name__ == "__main__":
    main()
