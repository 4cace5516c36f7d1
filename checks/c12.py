"""C12: what a trust mark issuer has recorded in its file database survives a crash, or a full disk,
at any point of any later operation.

Every history of operations up to a depth x every point (each byte written, each file opened,
renamed ...) at which the last or the one before is interrupted, on real files."""
import mc.env  # noqa
import itertools
import os
import shutil
import tempfile

from mc.crashfs import Crash, Faults
from mc.env import Clock, T0
from mc.report import Check, Result, chunked, digest, parallel

from fedservice.trust_mark_entity import FileDB

ID1, ID2 = "https://m.example.com/1", "https://m.example.com/2"
X, Y = "https://x.example.com", "https://y.example.com"
ADDS = {"x1": (ID1, X, None), "y1": (ID1, Y, 1000), "x2": (ID2, X, None)}
NEVER = 10**9


class Db:
    def __init__(self, tmp):
        self.tmp = tmp
        for fn in os.listdir(tmp):
            os.remove(os.path.join(tmp, fn))
        Clock.reset()
        self.conf = {ID1: os.path.join(tmp, "one"), ID2: os.path.join(tmp, "two")}
        self.issued = []         # certain
        self.maybe = []          # alternatives for what follows: lists of records
        self.db = None
        self.n = 0

    def start(self):
        self.db = FileDB(**self.conf)

    def record(self, name):
        self.n += 1
        tid, sub, life = ADDS[name]
        r = {"id": tid, "sub": sub, "iat": T0 + self.n, "ref": "\u00e5\n"}
        if life:
            r["exp"] = T0 + life
        return r

    def todo(self, op):
        """-> (what to do, the possible outcomes when interrupted, the outcome when not)"""
        if op == "start":
            return self.start, [[]], []
        if op == "load":
            recs = [self.record("x1"), self.record("y1"), self.record("x2")]
            import json
            dump = json.dumps({ID1: [json.dumps(r) for r in recs[:2]], ID2: [json.dumps(recs[2])]})
            alts = [recs[:n] + recs[2:2 + m] for n in range(3) for m in range(2)]
            return (lambda: self.db.loads(dump)), alts, recs
        r = self.record(op)
        return (lambda: self.db.add(dict(r))), [[], [r]], [r]

    def do(self, op):
        func, _, out = self.todo(op)
        func()
        self.settle(out)

    def settle(self, out):
        if self.maybe:
            self.maybe = [m + out for m in self.maybe]
        else:
            self.issued += out

    def interrupted(self, faults, op, at, kind):
        """-> whether it was"""
        func, alts, out = self.todo(op)
        faults.arm(at, kind)
        try:
            func()
            hit = False
        except Crash:
            hit = True
        except OSError:
            hit = True
            if kind == "crash":
                raise
        finally:
            faults.disarm()
        if hit:
            self.maybe = [m + a for m in (self.maybe or [[]]) for a in alts]
            if kind == "crash":
                self.db = None
        else:
            self.settle(out)
        return hit

    @staticmethod
    def answers(issued):
        def active(tid, sub, iat=None):
            for r in reversed(issued):
                if (r["id"], r["sub"]) == (tid, sub) and iat in (None, r["iat"]):
                    return True
            return False
        res = []
        for tid, sub in itertools.product((ID1, ID2), (X, Y)):
            for iat in [None] + list(range(T0 + 1, T0 + 9)):
                res.append(active(tid, sub, iat))
        for tid in (ID1, ID2):
            res.append(sorted(s for s in (X, Y) if active(tid, s)))
        return res

    def asked(self):
        res = []
        for tid, sub in itertools.product((ID1, ID2), (X, Y)):
            for iat in [None] + list(range(T0 + 1, T0 + 9)):
                res.append(bool(self.db.find(tid, sub, iat or 0)))
        for tid in (ID1, ID2):
            res.append(sorted(self.db.list(tid)))
        return res

    def wrong(self):
        """narrows the alternatives down to those matching"""
        try:
            got = self.asked()
        except Exception as err:
            return f"the database can not be used: {err!r}"
        if self.maybe:
            self.maybe = [m for m in self.maybe if self.answers(self.issued + m) == got]
            return None if self.maybe else f"records lost or made up: {got}"
        want = self.answers(self.issued)
        return None if got == want else f"records lost or made up: {got}, should be {want}"


def scenario(res, faults, tmp, pre, cuts, post, only=None):
    """pre: operations; cuts: [(operation, kind)] each interrupted at every point; post: operations"""

    def explore(points):
        """points: interruption points chosen for the first cuts"""
        at = 0
        while True:
            ats = points + [at]
            if only is None or ats == only[:len(ats)]:
                d = Db(tmp)
                if pre or cuts[0][0] != "start":
                    d.do("start")
                for op in pre:
                    d.do(op)
                bad, hit = None, False
                for (op, kind), a in zip(cuts, ats):
                    hit = d.interrupted(faults, op, a, kind)
                    if d.db is None:
                        d.start()
                    bad = d.wrong()
                    if bad:
                        break
                if len(ats) < len(cuts) and not bad:
                    if hit:
                        explore(ats)
                else:
                    res.count("evaluations")
                    for op in post:
                        if bad:
                            break
                        d.do(op)
                        bad = d.wrong()
                    if not bad:
                        d.start()
                        bad = d.wrong()
                    res.states.add(digest([pre, cuts[:1], ats[0], [sorted(
                        (f, open(os.path.join(tmp, f), "rb").read()) for f in os.listdir(tmp))]]))
                    if bad:
                        res.violation(f"{bad[:40]}:{pre}:{cuts}:{post}:{ats}",
                                      f"{bad}: {cuts} interrupted after {ats} steps, following "
                                      f"{pre} and followed by {post}",
                                      {"pre": pre, "cuts": cuts, "post": post, "at": ats})
                if not hit:
                    return
            elif at > 5000:
                return
            at += 1

    explore([])


def cases(thorough):
    names = list(ADDS)
    posts = [p for n in range(3) for p in itertools.product(names, repeat=n)]
    pres = [p for n in range(3) for p in itertools.product(names, repeat=n)]
    for kind in ("crash", "full"):
        for op in names + ["load"]:
            for pre in pres:
                for post in posts if thorough or not pre else posts[:4]:
                    yield pre, [(op, kind)], post
        for op in names:
            for pre in pres[:1] + (pres[1:4] if thorough else []):
                for op2 in names:
                    if thorough or (op, op2) == ("x1", "y1"):
                        yield pre, [(op, kind), (op2, "crash")], ("x1",)
    for pre, post in itertools.product(pres, posts[:4]):
        yield pre, [("start", "crash")], post


def work(chunk):
    res = Result()
    tmp = tempfile.mkdtemp(prefix="c12.")
    try:
        with Faults(tmp) as faults:
            for pre, cuts, post in chunk:
                scenario(res, faults, tmp, pre, cuts, post)
                res.sample({"before": pre, "interrupted": cuts, "after": post})
    finally:
        shutil.rmtree(tmp)
    return res


def main():
    chk = Check("C12", "fault_enumeration", [
        "what has been handed to the operating system stays (the process dies, not the machine)"])
    if chk.replay:
        c = chk.replay["case"]
        res = Result()
        tmp = tempfile.mkdtemp(prefix="c12.")
        try:
            with Faults(tmp) as faults:
                scenario(res, faults, tmp, tuple(c["pre"]), [tuple(x) for x in c["cuts"]],
                         tuple(c["post"]), c["at"])
        finally:
            shutil.rmtree(tmp)
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    res = parallel(work, chunked(cases(chk.thorough), 96))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "histories of up to two operations, the next interrupted at every byte and file "
                "operation (by the end of the process or a full disk), then up to two more, the "
                "first also interrupted at every point; all answers compared after each",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
