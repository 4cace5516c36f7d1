"""C08: what an entity states about its subordinates and itself is what its operator has configured
at that moment, whatever was asked or configured before.

All histories of configuration changes and requests up to a depth on a real entity; after each, every
request is made and the signed answer compared with the operator's own book-keeping."""
import mc.env  # noqa
import copy
import itertools
import json
import os
import shutil
import tempfile

from mc.env import Clock, T0
from mc.fed import PUB, fresh_world, header_of, jwks, make_entity, payload_of, verifies
from mc.report import Check, Result, chunked, digest, parallel

ME, TA = "https://sup.example.com", "https://ta.example.net"
X, Y = "https://x.example.com", "https://y.example.com"
REG = {
    "rp": {"jwks": jwks(2), "entity_types": ["openid_relying_party"]},
    "rp+op": {"jwks": jwks(3), "entity_types": ["openid_relying_party", "openid_provider",
                                               "federation_entity"],
              "authority_hints": [ME, TA], "intermediate": True},
    "plain": {"jwks": jwks(2, 3), "constraints": {"max_path_length": 1}},
}
POL = {
    "p1": {"metadata_policy": {"openid_relying_party": {"contacts": {"add": ["p1"]}}}},
    "p2": {"metadata": {"federation_entity": {"organization_name": "p2"}},
           "constraints": {"max_path_length": 0}},
}
RPT = {
    "t1": {"metadata_policy": {"scope": {"subset_of": ["t1"]}}},
    "t2": {"metadata": {"client_name": "t2"}, "metadata_policy": {"contacts": {"add": ["t2"]}}},
}
OPT = {"u1": {"metadata": {"issuer": "u1"}}}
CONF = ([("reg", X, k) for k in REG] + [("reg", X, None)]
        + [("pol", X, k) for k in POL] + [("pol", X, None)]
        + [("type", "openid_relying_party", k) for k in RPT]
        + [("type", "openid_relying_party", None)]
        + [("type", "openid_provider", "u1"), ("type", "openid_provider", None)])
ASK = [("fetch", {"sub": X}), ("fetch", {"sub": X, "iss": ME}), ("fetch", {"sub": Y}),
       ("fetch", {"sub": X, "iss": "https://other.example.com"}),
       ("fetch", {"sub": "https://unknown.example.com"}), ("fetch", {}), ("fetch", {"sub": ME}),
       ("fetch", {"iss": "https://other.example.com"}), ("ec", {})]
OPS = [("ask", 0), ("ask", 2), ("ask", 6), ("ask", 8)] + CONF
SETUPS = ["plain", "hints in file", "hints computed", "marks", "marks in file", "marks computed",
          "anchor"]
MARKS = ["eyJh.eyJi.c2ln", "eyJx.eyJy.c2ln"]


class Operator:
    def __init__(self, setup, tmp):
        Clock.reset()
        fresh_world()
        self.setup = setup
        kw = {}
        self.hints = [TA, "https://other.example.net"]
        if setup == "anchor":
            self.hints = []
        elif setup == "hints in file":
            fn = os.path.join(tmp, "hints.json")
            json.dump(self.hints, open(fn, "w"))
            kw["authority_hints"] = fn
        elif setup == "hints computed":
            kw["authority_hints"] = lambda: [TA, "https://other.example.net"]
        else:
            kw["authority_hints"] = list(self.hints)
        self.marks = None
        if setup == "marks":
            kw["trust_marks"] = list(MARKS)
        elif setup == "marks in file":
            fn = os.path.join(tmp, "marks.json")
            json.dump(MARKS, open(fn, "w"))
            kw["trust_marks"] = fn
        elif setup == "marks computed":
            kw["trust_marks"] = lambda: list(MARKS)
        if setup.startswith("marks"):
            self.marks = MARKS
        self.fe = make_entity(ME, 1, trust_anchors={TA: jwks(5)},
                              endpoints=["entity_configuration", "fetch", "list", "resolve"], **kw)
        self.reg, self.pol = {}, {}
        self.configure(("reg", X, "rp"))
        self.configure(("reg2", Y, None))

    def configure(self, op):
        kind, who, what = op
        srv = self.fe.server
        if kind == "reg2":
            val = {"jwks": jwks(4), "entity_types": ["openid_provider"]}
            srv.subordinate[who] = copy.deepcopy(val)
            self.reg[who] = val
        elif kind == "reg":
            srv.subordinate.pop(who, None)
            self.reg.pop(who, None)
            if what:
                srv.subordinate[who] = copy.deepcopy(REG[what])
                self.reg[who] = REG[what]
        else:
            src = POL if kind == "pol" else RPT if who == "openid_relying_party" else OPT
            srv.policy.pop(who, None)
            self.pol.pop(who, None)
            if what:
                srv.policy[who] = copy.deepcopy(src[what])
                self.pol[who] = src[what]

    def expected(self, n):
        """None: refused; otherwise the claims of the statement"""
        kind, q = ASK[n]
        if q.get("iss", ME) != ME:
            return None
        sub = q.get("sub", ME)
        if sub == ME:
            ps = {"federation_entity": {
                "organization_name": ME, "federation_fetch_endpoint": ME + "/fetch",
                "federation_list_endpoint": ME + "/list",
                "federation_resolve_endpoint": ME + "/resolve"}}
            res = {"iss": ME, "sub": ME, "jwks": jwks(1), "metadata": ps}
            if self.hints:
                res["authority_hints"] = self.hints
            if self.marks:
                res["trust_marks"] = self.marks
            return res
        reg = self.reg.get(sub)
        if reg is None:
            return None
        res = {"iss": ME, "sub": sub, "jwks": reg["jwks"],
               "authority_hints": reg.get("authority_hints", [ME])}
        if "constraints" in reg:
            res["constraints"] = reg["constraints"]
        if sub in self.pol:
            res.update(self.pol[sub])
        else:
            for typ in reg.get("entity_types", []):
                for part in ("metadata", "metadata_policy"):
                    if part in self.pol.get(typ, {}):
                        res.setdefault(part, {})[typ] = self.pol[typ][part]
        return res

    def ask(self, n):
        kind, q = ASK[n]
        ep = self.fe.server.endpoint["fetch" if kind == "fetch" else "entity_configuration"]
        try:
            req = ep.parse_request(dict(q)) if q else {}
            r = ep.process_request(req)
        except Exception:
            return None
        for k in ("response_msg", "response"):
            if isinstance(r, dict) and isinstance(r.get(k), str) and r[k].count(".") == 2:
                return r[k]
        return None

    def wrong(self, n):
        want = self.expected(n)
        tok = self.ask(n)
        if want is None:
            return None if tok is None else f"{ASK[n]} answered with {payload_of(tok)}"
        if tok is None:
            return f"{ASK[n]} refused"
        got = payload_of(tok)
        if not verifies(tok, jwks(1)):
            return f"{ASK[n]}: not signed with my key"
        if header_of(tok).get("kid") != PUB[1]["kid"]:
            return f"{ASK[n]}: header {header_of(tok)}"
        iat, exp = got.pop("iat", None), got.pop("exp", None)
        if iat is None or exp is None or abs(iat - T0) > 5 or exp <= iat:
            return f"{ASK[n]}: iat {iat} exp {exp}"
        if got != want:
            ks = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
            return (f"{ASK[n]}: claims {ks} are { {k: got.get(k) for k in ks} }, configured "
                    f"{ {k: want.get(k) for k in ks} }")
        return None

    def changed(self):
        srv = self.fe.server
        for name, mine in [("subordinate", self.reg), ("policy", self.pol)]:
            if json.dumps(dict(getattr(srv, name)), sort_keys=True) != json.dumps(mine, sort_keys=True):
                return f"the configured {name} has been modified: {dict(getattr(srv, name))}"
        return None


def run(res, setup, hist, tmp, probe=True):
    o = Operator(setup, tmp)
    for n, op in enumerate(hist):
        res.count("transitions")
        if op[0] == "ask":
            bad = o.wrong(op[1])
            if bad:
                report(res, setup, hist[:n], op[1], bad)
                return
        else:
            o.configure(op)
        res.states.add(digest([setup, o.reg, o.pol]))
    for n in range(len(ASK) if probe else 0):
        res.count("answers checked")
        bad = o.wrong(n) or o.changed()
        if bad:
            report(res, setup, hist, n, bad)
            return
    res.count("histories")


def report(res, setup, hist, n, bad):
    res.violation(f"{setup}:{ASK[n]}:{bad[:80]}", f"{bad} after {list(hist)} ({setup})",
                  {"setup": setup, "hist": [list(h) for h in hist], "ask": n})


def work(chunk):
    res = Result()
    tmp = tempfile.mkdtemp(prefix="c08.")
    try:
        for setup, hist in chunk:
            run(res, setup, hist, tmp)
            if len(hist) > 2:
                res.sample({"setup": setup, "history": [str(h) for h in hist]})
    finally:
        shutil.rmtree(tmp)
    return res


def main():
    chk = Check("C08", "model_checking", [
        "registrations carry no metadata of their own next to entity type policies"])
    if chk.replay:
        c = chk.replay["case"]
        res = Result()
        tmp = tempfile.mkdtemp(prefix="c08.")
        try:
            run(res, c["setup"], [tuple(h) for h in c["hist"]] + [("ask", c["ask"])], tmp)
        finally:
            shutil.rmtree(tmp)
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 4 if chk.thorough else 3
    todo = [("plain", h) for n in range(depth + 1) for h in itertools.product(OPS, repeat=n)]
    todo += [(s, h) for s in SETUPS[1:] for n in range(3) for h in itertools.product(OPS, repeat=n)]
    res = parallel(work, chunked(todo, 96))
    chk.finish(res, {
        "states": len(res.states), "transitions": res.counts["transitions"],
        "traces_validated_against_impl": res.counts.get("histories", 0),
        "depth": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
