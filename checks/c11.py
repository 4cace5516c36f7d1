"""C11: a trust mark issuer's answers about its trust marks agree with what it has issued.

All histories of issuing, passing time, restarting and moving the database up to a depth, for both
databases; after each, every status and list request is compared with the book-keeping here."""
import mc.env  # noqa
import copy
import itertools
import json
import os
import shutil
import tempfile

from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, make_entity, payload_of, sign, verifies
from mc.report import Check, Result, chunked, digest, parallel

ME, OTHER = "https://tmi.example.com", "https://tmi.example.net"
ID1, ID2, ID3 = [f"https://marks.example.com/{n}" for n in "123"]
X, Y, Z = [f"https://{n}.example.com" for n in "xyz"]
SPEC = {ID1: {"lifetime": 600, "ref": "https://ref.example.com"}, ID2: {"logo_uri": "https://logo"}}
OPS = [("issue", ID1, X), ("issue", ID1, Y), ("issue", ID2, X), ("short", ID1, X),
       ("short", ID2, Y), ("request", ID1, X), ("issue", ID3, X), ("time", 100), ("time", 603),
       ("restart",), ("move",)]


class Issuer:
    def __init__(self, kind, tmp):
        Clock.reset()
        fresh_world()
        self.kind, self.tmp, self.n = kind, tmp, 0
        self.spec = copy.deepcopy(SPEC)
        db = None
        if kind == "file":
            db = self.filedb()
        self.conf = {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
            "trust_mark_specification": self.spec,
            "endpoint": {n: {"path": n, "class": f"fedservice.trust_mark_entity.server.{n}.{c}",
                             "kwargs": {}} for n, c in
                         [("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"),
                          ("trust_mark_status", "TrustMarkStatus")]}}}
        if db:
            self.conf["kwargs"]["trust_mark_db"] = db
        self.fe = make_entity(ME, 0)
        # keys of others have come to be known
        self.fe.keyjar.import_jwks(jwks(3), OTHER)
        self.issued = []     # (id, sub, iat, exp, token)
        self.start()

    def filedb(self):
        self.n += 1
        return {"class": "fedservice.trust_mark_entity.FileDB", "kwargs": {
            i: os.path.join(self.tmp, f"{self.n}.{k}") for k, i in enumerate((ID1, ID2))}}

    def start(self):
        from idpyoidc.util import instantiate
        self.tme = instantiate(self.conf["class"], upstream_get=self.fe.unit_get,
                               **self.conf["kwargs"])

    def op(self, op):
        """None or what is wrong"""
        kind = op[0]
        if kind == "time":
            Clock.advance(op[1])
        elif kind == "restart":
            if self.kind == "file":
                self.start()
        elif kind == "move":
            dump = self.tme.dump_trust_marks()
            if self.kind == "file":
                self.conf["kwargs"]["trust_mark_db"] = self.filedb()
            self.start()
            self.tme.load_trust_marks(dump)
        else:
            _, tid, sub = op
            Clock.advance(1)
            now = int(Clock.now)
            exp = now + SPEC[tid]["lifetime"] if "lifetime" in SPEC.get(tid, {}) else None
            kw = {}
            if kind == "short":
                exp = kw["exp"] = now + 60
            try:
                if kind == "request":
                    ep = self.tme.endpoint["trust_mark"]
                    tok = ep.process_request(ep.request_cls(sub=sub, trust_mark_id=tid))
                    tok = tok["http_response"]
                else:
                    tok = self.tme.create_trust_mark(tid, sub, **kw)
            except Exception as err:
                return None if tid not in SPEC else f"refused: {err!r}"
            if tid not in SPEC:
                return f"issued an unknown trust mark {payload_of(tok)}"
            want = {k: v for k, v in SPEC[tid].items() if k != "lifetime"}
            want.update({"iss": ME, "sub": sub, "id": tid, "iat": now})
            if exp:
                want["exp"] = exp
            if payload_of(tok) != want or not verifies(tok, jwks(0)):
                return f"issued {payload_of(tok)}, expected {want}"
            self.issued.append((tid, sub, now, exp, tok))

    def active(self, tid, sub, iat=None):
        for i, s, t, e, _ in reversed(self.issued):
            if (i, s) == (tid, sub) and iat in (None, t):
                return e is None or Clock.now <= e
        return False

    def status(self, req):
        ep = self.tme.endpoint["trust_mark_status"]
        try:
            r = ep.process_request(ep.request_cls(**req))
            return bool(r.get("response_args", {}).get("active", False))
        except Exception:
            return False

    def list(self, req):
        ep = self.tme.endpoint["trust_mark_list"]
        try:
            r = ep.process_request(ep.request_cls(**req))
            if "error" in r:
                return []
            return json.loads(r["response_msg"])
        except Exception as err:
            return repr(err)

    def wrong(self, res):
        iats = sorted({i[2] for i in self.issued})
        for tid, sub in itertools.product((ID1, ID2, ID3), (X, Y, Z)):
            for key in ("trust_mark_id", "id"):
                res.count("answers checked")
                if self.status({key: tid, "sub": sub}) != self.active(tid, sub):
                    return f"status of {tid} for {sub} should be {self.active(tid, sub)}"
            for iat in iats + [T0 - 5]:
                res.count("answers checked")
                for form in (iat, str(iat)):
                    got = self.status({"trust_mark_id": tid, "sub": sub, "iat": form})
                    if got != self.active(tid, sub, iat):
                        return (f"status of {tid} for {sub} issued at {iat - T0} should be "
                                f"{self.active(tid, sub, iat)}")
            res.count("answers checked")
            want = [sub] if self.active(tid, sub) else []
            got = self.list({"trust_mark_id": tid, "sub": sub})
            if got != want:
                return f"list of {tid} for {sub} is {got}, should be {want}"
        for tid in (ID1, ID2, ID3):
            want = sorted(s for s in (X, Y, Z) if self.active(tid, s))
            got = self.list({"trust_mark_id": tid})
            if sorted(got) != want or len(got) != len(want):
                return f"list of {tid} is {got}, should be {want}"
        for tid, sub, iat, exp, tok in self.issued:
            act = exp is None or Clock.now <= exp
            res.count("answers checked")
            if self.status({"trust_mark": tok}) != act:
                return f"status of the trust mark {payload_of(tok)} should be {act}"
            p = payload_of(tok)
            for name, fake in (
                    ("another issuer's", sign(dict(p, iss=OTHER), 3)),
                    ("a forged", sign(p, 4)),
                    ("one by another with my name", sign(p, 3)),
                    ("a never issued", sign(dict(p, iat=p["iat"] - 7), 0)),
                    ("a never issued", sign(dict(p, sub=Z), 0))):
                if self.status({"trust_mark": fake}):
                    return f"{name} trust mark {payload_of(fake)} is said to be active"
        if self.spec != SPEC:
            return f"the configuration has been modified: {self.spec}"
        return None


def run(res, kind, hist, tmp):
    o = Issuer(kind, tmp)
    bad = None
    for op in hist:
        res.count("transitions")
        bad = o.op(op)
        res.states.add(digest([kind, o.issued and [i[:4] for i in o.issued], Clock.now]))
        if bad:
            break
    try:
        bad = bad or o.wrong(res)
    except Exception as err:
        bad = repr(err)
    if bad:
        res.violation(f"{kind}:{bad[:60]}:{hist}", f"{bad} after {hist} ({kind})",
                      {"kind": kind, "hist": hist})
    else:
        res.count("histories")
    for fn in os.listdir(tmp):
        os.remove(os.path.join(tmp, fn))


def work(chunk):
    res = Result()
    tmp = tempfile.mkdtemp(prefix="c11.")
    try:
        for kind, hist in chunk:
            run(res, kind, hist, tmp)
            if len(hist) > 2:
                res.sample({"db": kind, "history": hist})
    finally:
        shutil.rmtree(tmp)
    return res


def histories(depth):
    for n in range(depth + 1):
        for h in itertools.product(OPS, repeat=n):
            # time only matters once something is issued; so do restarts
            if h and h[0][0] in ("time", "restart", "move"):
                continue
            if any(a[0] in ("restart", "move") and a == b for a, b in zip(h, h[1:])):
                continue
            for kind in ("simple", "file"):
                if kind == "simple" and ("restart",) in h:
                    continue
                yield kind, h


def main():
    chk = Check("C11", "model_checking", [
        "the issuer does not issue two trust marks with the same identifier for the same subject "
        "within a second"])
    if chk.replay:
        c = chk.replay["case"]
        res = work([(c["kind"], [tuple(o) for o in c["hist"]])])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 5 if chk.thorough else 4
    res = parallel(work, chunked(histories(depth), 96))
    chk.finish(res, {
        "states": len(res.states), "transitions": res.counts["transitions"],
        "traces_validated_against_impl": res.counts.get("histories", 0),
        "depth": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
