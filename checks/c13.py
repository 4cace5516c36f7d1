"""C13: simultaneous requests to one entity get the answers the same requests get one after the other.

Two threads ask the same entity; which line of fedservice's code each of them executes next is decided
here (mc/sched.py). All schedules with one preemption - each of the two stopped before each of its
lines while the other one runs to its end - and, in the thorough check, with two. What both are told, and what the
entity says to a series of questions afterwards, has to be what one of the two sequential orders gives."""
import mc.env  # noqa
import copy
import itertools
import json
import os
import shutil
import tempfile
from functools import lru_cache

from checks import c08, c10, c11, c15, c16, c20, c22, c26
from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, make_entity, payload_of, verifies
from mc.graph import Graph, eid
from mc.report import Check, Result, chunked, digest, parallel
from mc.sched import Turn

KEYNR = {"V": 0, "L": 1, "K": 2, "I": 3, "J": 4, "A": 5, "B": 6}
RP = "openid_relying_party"


def plain(v):
    """Without what differs from call to call"""
    if isinstance(v, str) and v.count(".") == 2 and v.startswith("ey"):
        return {"claims": plain(payload_of(v))}
    if hasattr(v, "to_dict"):
        v = v.to_dict()
    if isinstance(v, dict):
        if not str(v.get("client_id", "http")).startswith("http"):
            v = dict(v, client_id="allotted")
        return {str(k): plain(x) for k, x in sorted(v.items(), key=lambda i: str(i[0])) if k not in (
            "jti", "client_secret", "registration_access_token", "client_id_issued_at", "error_description")}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def attempt(func):
    def f():
        try:
            return json.dumps(plain(func()), sort_keys=True, default=str)
        except Exception:
            return "refused"
    return f


# --------------------------------------------------------------------------------------- scenarios
# Each: setup(scratch directory) -> two functions and a series of questions afterwards

class FedV(Graph):
    def ec(self, n, fault=None):
        self.ec_life = int(Clock.now) - T0 + (900 if n in "LK" else 3600)
        return super().ec(n, fault)

    def statement(self, n, sub, fault=None):
        self.about[(n, sub)] = {"metadata_policy": {RP: {"contacts": {"add": [n]}}}}
        self.life = int(Clock.now) - T0 + 1800
        return super().statement(n, sub, fault)


SHAPES = {"line": {"L": "I", "K": "I", "I": "A"}, "diamond": {"L": "IJ", "K": "J", "I": "A", "J": "A"},
          "two": {"L": "AI", "K": "I", "I": "AB"}}


def observer(shape, cache, ops):
    def setup(tmp):
        w = fresh_world()
        hints = {k: list(v) for k, v in SHAPES[shape].items()}
        g = FedV(hints, KEYNR, metadata={n: {RP: {"contacts": [n], "client_name": n}} for n in "LK"})
        g.serve(w)
        v = make_entity(eid("V"), 0, trust_anchors={eid(a): jwks(KEYNR[a]) for a in "AB"})
        from fedservice.entity.function import get_verified_trust_chains

        def chains(who):
            return sorted((tc.iss_path, plain(tc.metadata), tc.exp - Clock.now)
                          for tc in get_verified_trust_chains(v, eid(who)))

        def md(who):
            return v.get_verified_metadata(eid(who))

        def anew():     # an entity configuration, fetched, and what it says
            return v.function.trust_chain_collector.get_entity_configuration(eid("I"))
        todo = {"chains L": lambda: chains("L"), "chains K": lambda: chains("K"), "metadata L": lambda: md("L"),
                "chains I": lambda: chains("I"), "configuration": anew}
        if cache != "cold":
            chains("L"), chains("K")
        Clock.advance({"cold": 0, "warm": 5, "leaf expired": 901, "statements expired": 1801,
                       "all expired": 3601}[cache])
        return [todo[o] for o in ops], [todo[o] for o in ("chains L", "chains K", "metadata L", "chains I")]
    return setup


def operator(how, ops):
    def setup(tmp):
        o = c08.Operator(how, tmp)
        todo = {}
        for n, (kind, q) in enumerate(c08.ASK):
            todo[f"ask {n}"] = lambda n=n: o.ask(n)
        todo["add Z"] = lambda: o.configure(("reg2", "https://z.example.com", None))
        todo["drop X"] = lambda: o.configure(("reg", c08.X, None))
        todo["list"] = lambda: lst({})
        todo["list rp"] = lambda: lst({"entity_type": RP})

        def lst(q):
            ep = o.fe.server.endpoint["list"]
            return ep.process_request(ep.parse_request(dict(q)))
        after = [todo[k] for k in todo if k.startswith("ask")] + [todo["list"], lambda: o.fe.server.subordinate]
        return [todo[k] for k in ops], after
    return setup


def issuer(kind, ops, before=()):
    def setup(tmp):
        i = c11.Issuer(kind, tempfile.mkdtemp(dir=tmp))
        for tid, sub in before:
            i.tme.create_trust_mark(tid, sub)
        second = i.tme
        if kind == "file":
            i.start()               # another process's: the same files
        tmes = [second, i.tme]

        def on(n, what, tid, sub):
            tme = tmes[n]
            if what == "issue":
                return tme.create_trust_mark(tid, sub)
            if what == "status":
                ep = tme.endpoint["trust_mark_status"]
                return ep.process_request(ep.request_cls(trust_mark_id=tid, sub=sub))
            ep = tme.endpoint["trust_mark_list"]
            return ep.process_request(ep.request_cls(trust_mark_id=tid))

        def ask(what, tid, sub):
            return lambda: on(0, what, tid, sub)
        after = [ask("status", t, s) for t in (c11.ID1, c11.ID2) for s in (c11.X, c11.Y)]
        after += [ask("list", t, None) for t in (c11.ID1, c11.ID2)]
        return [lambda n=n, o=o: on(n, *o) for n, o in enumerate(ops)], after
    return setup


def resolver(hints, ops):
    def setup(tmp):
        w = fresh_world()
        fed = c10.Fed({k: list(v) for k, v in hints.items()})
        fed.serve(w)
        r = c10.Resolver("AB" if "B" in str(hints) else "A")
        todo = {f"{n} {a}": (lambda n=n, a=a: r.ask({"sub": eid(n), "anchor": eid(a)}))
                for n in "LM" for a in "AB"}
        return [todo[o] for o in ops], [todo[o] for o in ("L A", "M A", "L B")]
    return setup


def registration(kind, ops):
    """Explicit registrations and requests"""
    def setup(tmp):
        w = fresh_world()
        typ = c15.KINDS[kind]
        fed = c15.Fed({"C": "A", "X": "M", "M": "B"}, typ)
        fed.serve(w)
        s = c15.Server(kind, "AB")
        md = {"C": c15.client_md(typ), "C2": c15.client_md(typ, "other", "https://c.example.com/cb2"),
              "X": c15.client_md(typ, "X's", "https://x.example.com/cb"),
              "C3": c15.client_md(typ, "bad", "https://c.example.com/cb#fragment")}

        def reg(n):
            from mc.fed import sign
            who = n[0]
            now = int(Clock.now)
            return s.register(sign({
                "iss": eid(who), "sub": eid(who), "aud": c15.ME, "iat": now, "exp": now + 300,
                "jwks": jwks(c15.KEY[who]), "authority_hints": [eid(h) for h in fed.hints[who]],
                "metadata": {typ: md[n]}}, c15.KEY[who]))
        todo = {f"register {n}": (lambda n=n: reg(n)) for n in md}
        after = [lambda n=n: [s.cdb.get(eid(n), {}).get(k) for k in (
            "client_name", "redirect_uris", "contacts", "entity_id")] + [sorted(set(s.keys_of(eid(n))))] for n in "CX"]
        return [todo[o] for o in ops], after
    return setup


def automatic(which, before, ops):
    def setup(tmp):
        w = fresh_world()
        fed = c16.Fed({"C": "A", "M": "B"}, c15.KINDS[c16.ENDPOINTS[which][0]])
        fed.hints["X"] = ["M"]
        fed.serve(w)
        s = c15.Server(c16.ENDPOINTS[which][0], "AB")
        red = "https://c.example.com/cb"
        asked = []

        def ask(n, where=red):
            req = c16.request(s, which, eid(n), where, 12 if before == "other keys" and asked else 11)
            return lambda: c16.accepted(s, which, eid(n), req)
        todo = {"C": lambda: ask("C"), "X": lambda: ask("X"), "U": lambda: ask("U"),
                "C elsewhere": lambda: ask("C", "https://evil.example.com/")}
        if before != "new":
            todo["C"]()()
        Clock.advance({"new": 0, "registered": 5, "expired": 3601, "other keys": 3601}[before])
        if before == "other keys":
            asked.append(None)
            fed.metadata["C"][fed.typ]["jwks"] = jwks(12)
        asked = [todo[o]() for o in ops]
        after = [todo[o]() for o in todo]
        after += [lambda n=n: [s.cdb.get(eid(n), {}).get(k) for k in (
            "client_name", "redirect_uris", "contacts", "entity_id")] + [sorted(set(s.keys_of(eid(n))))] for n in "CXU"]
        return asked, after
    return setup


def site(reg, ops):
    """A relying party with two users"""
    def setup(tmp):
        s = c20.Site(reg)
        user = list(c20.USERS)
        came = []
        for n in (0, 1):
            state, q = s.begin()
            came.append((state, q, s.login(q, user[n]) if ops[n] not in ("begin", "login") else None))

        def res(got):
            if got is None:
                return "no"
            states = [begun.get(n, c)[0] for n, c in enumerate(came)]
            return {"state": states.index(got["state"]), "issuer": got["issuer"],
                    "userinfo": who(c20.claims_only(got["userinfo"])), "whose": who(s.whose(got["token"])),
                    "same": got["id_token"]["sub"] == got["userinfo"]["sub"]}

        def who(info):      # the identifiers of users differ from provider to provider
            return {k: v for k, v in info.items() if k != "sub"} if info else info

        def op(n):
            kind = ops[n]
            state, q, resp = came[n]
            if kind == "begin":
                begun[n] = s.begin()
                return len(begun[n])
            if kind == "login":
                brought[n] = s.login(q, user[n] if "login" != ops[1 - n] else user[0])
                return sorted(k for k in brought[n] if k not in ("expires_in", "session_state"))
            if kind == "finalize":
                return res(s.finalize(resp))
            if kind == "refused":
                return res(s.finalize(dict(resp, code="nonsense")))

        begun, brought = {}, {}

        def after(n):
            state = came[n][0]
            if n in begun:
                state, q = begun[n]
                return [s.active(state), res(s.finalize(s.login(q, user[n])))]
            if n in brought:
                return res(s.finalize(brought[n]))
            tok = s.token(state)
            return [s.active(state), who(s.whose(tok)) if tok else None]
        return [lambda: op(0), lambda: op(1)], [lambda: after(0), lambda: after(1)]
    return setup


def marks(state, ops):
    """Someone verifying trust marks, and asking for some"""
    def setup(tmp):
        f = c26.Fed26()
        for iss, tid in (("T", c26.ID2), ("U", c26.ID1)):
            c26.step(f, ("get", "W", iss, tid))
        toks = {i[0]: i[-1] for i in f.issued}
        v = f.e["V"]

        def verify(tok, **kw):
            got = v.verify_trust_mark(tok, **kw)
            return got
        todo = {"T": lambda: verify(toks["T"]), "U": lambda: verify(toks["U"]),
                "T alone": lambda: verify(toks["T"], check_with_issuer=False),
                "status": lambda: c26.ask(v, "trust_mark_status", request_args={"trust_mark": toks["U"]}),
                "get": lambda: c26.ask(v, "trust_mark", request_args={
                    "trust_mark_id": c26.ID2, "sub": eid("V")}, entity_id=eid("T")),
                "leave": lambda: f.e["A"].server.subordinate.pop(eid("U"), None) and None}
        if state != "cold":
            todo["T"](), todo["U"]()
            Clock.advance({"known": 5, "expired": 86400 + 5}[state])
        return [todo[o] for o in ops], [todo[o] for o in ("T", "U", "T alone", "status")]
    return setup


def client(shape, policy, types):
    """A client that finds out about its provider, twice"""
    def setup(tmp):
        w = fresh_world()
        fed = c22.Fed22({k: list(v) for k, v in shape.items()}, policy=policy, reg=types)
        fed.serve(w)
        c = c22.Client(anchors="AB")

        def discover():
            return c22.norm(c.discover() or {})
        return [discover, discover], [lambda: [c22.norm(dict(c.context.provider_info or {})),
                                               {k: sorted(set(v)) for k, v in c.owners().items()}], discover]
    return setup


def es_cache(ops):
    """The cache of a collector: one entry that's about to expire and one that isn't"""
    def setup(tmp):
        from fedservice.entity_statement.cache import ESCache
        c = ESCache(allowed_delta=300)

        def put(key, life):
            c[key] = {"exp": int(Clock.now) + life, "life": life}
        put("old", 200), put("good", 2000)
        c["string"] = "a.b.c"
        todo = {}
        for k in ("old", "good", "string"):
            todo[f"read {k}"] = lambda k=k: c[k]
            todo[f"get {k}"] = lambda k=k: c.get(k, "none")
            todo[f"has {k}"] = lambda k=k: k in c
            todo[f"drop {k}"] = lambda k=k: c.__delitem__(k)
            todo[f"renew {k}"] = lambda k=k: put(k, 3000)
        return [todo[o] for o in ops], [todo[o] for o in todo if o.startswith("get")]
    return setup


@lru_cache(None)
def scenarios():
    """name -> (setup, in the quick check as well)"""
    cs = {}
    for shape in SHAPES:
        for cache in ("cold", "warm", "leaf expired", "statements expired", "all expired"):
            for ops in (("chains L", "chains L"), ("chains L", "chains K"), ("metadata L", "chains I"),
                        ("chains K", "configuration")):
                quick = shape == "line" and (cache != "warm" or "configuration" in ops) and ops[0] != "metadata L" or (
                    shape, cache) == ("diamond", "statements expired") and ops[0] == "metadata L"
                cs[f"observer {shape} {cache} {ops}"] = observer(shape, cache, ops), quick
    for ops in (("ask 0", "ask 1"), ("list", "add Z"), ("list", "drop X"), ("list rp", "add Z"),
                ("list rp", "drop X"), ("ask 0", "ask 0")):
        cs[f"operator {ops}"] = operator("list", ops), True
    for kind in ("file", "simple"):
        for a in ("issue", "status", "list"):
            for b, tid, sub in (("issue", c11.ID1, c11.X), ("issue", c11.ID1, c11.Y), ("issue", c11.ID2, c11.X)):
                for before in ((), ((c11.ID1, c11.X),)):
                    cs[f"issuer {kind} {a} {b} {tid[-1]} {sub} {len(before)}"] = issuer(
                        kind, ((a, c11.ID1, c11.X), (b, tid, sub)), before), True
    for hints in ({"L": "A", "M": "A"}, {"L": "M", "M": "A"}, {"L": "MA", "M": "AB"}):
        for ops in (("L A", "L A"), ("L A", "M A"), ("L A", "L B")):
            cs[f"resolver {hints} {ops}"] = resolver(hints, ops), ops[1] == "M A"
    for kind in c15.KINDS:
        for ops in (("register C", "register C"), ("register C", "register C2"), ("register C", "register X"),
                    ("register C", "register C3"), ("register C3", "register X")):
            cs[f"registration {kind} {ops}"] = registration(kind, ops), "X" in ops[1] or "C2" in ops[1]
    for which in c16.ENDPOINTS:
        for before in ("new", "registered", "expired", "other keys"):
            for ops in (("C", "C"), ("C", "X"), ("C", "U"), ("C", "C elsewhere")):
                cs[f"automatic {which} {before} {ops}"] = automatic(which, before, ops), (
                    ops == ("C", "C elsewhere") and before != "other keys" or
                    ops == ("C", "C") and before == "other keys")
    for ops in (("finalize", "finalize"), ("finalize", "begin"), ("finalize", "refused"), ("finalize", "login"),
                ("login", "login"), ("begin", "begin")):
        cs[f"site {ops}"] = site("automatic", ops), ops[1] in ("finalize", "login") and ops[0] == "finalize"
    for k in ("old", "good", "string"):
        for ops in itertools.product(("read", "get", "has"), ("read", "get", "has", "drop", "renew")):
            if k == "old" and ops[1] == "renew":
                continue        # it may be dropped as well. That it then has to be fetched again is no harm
            cs[f"cache {k} {ops}"] = es_cache([f"{o} {k}" for o in ops]), True
    for state in ("cold", "known", "expired"):
        for ops in (("T", "T"), ("T", "U"), ("U", "T alone"), ("U", "status"), ("get", "get"), ("U", "leave")):
            cs[f"marks {state} {ops}"] = marks(state, ops), ops == ("T", "U") and state == "expired"
    for shape in ({"O": "A"}, {"O": "MB", "M": "A"}):
        for types in (("automatic",), ("automatic", "explicit")):
            cs[f"client {shape} {types}"] = client(shape, "value", types), "M" in shape and len(types) == 1
    return cs


# ----------------------------------------------------------------------------------------- running

def go(name, plan, tmp, record=False):
    Clock.reset()
    fs, after = scenarios()[name][0](tmp)
    turn = Turn([attempt(f) for f in fs], plan)
    turn.record = record
    r = turn.run()
    return turn, [r[0], r[1]] + [attempt(a)() for a in after]


def orders(name, tmp):
    """The two sequential orders: what they give, and which lines each executes when it comes first"""
    a, ra = go(name, [(0, None)], tmp, True)
    b, rb = go(name, [(1, None)], tmp, True)
    again = go(name, [(0, None)], tmp)[1]
    if again != ra:
        raise RuntimeError(f"{name} isn't deterministic: {ra} {again}")
    return [ra, rb], [a.where[0], b.where[1]]


def points(where, times):
    """Indices of the first `times` executions of every line"""
    seen, res = {}, []
    for n, w in enumerate(where):
        seen[w] = seen.get(w, 0) + 1
        if n and (times is None or seen[w] <= times):
            res.append(n)
    return res


def prepare(chunk):
    res = Result()
    tmp = tempfile.mkdtemp(prefix="mc13.")
    try:
        for name, times in chunk:
            rs, where = orders(name, tmp)
            res.carry.append([name, [digest(r) for r in rs], [points(w, times) for w in where],
                        [[n for n in points(w, 1) if any(p in w[n][0] for p in (
                            "server", "trust_mark", "cache"))] for w in where],
                        rs[0][:2]])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def work(chunk):
    res = Result()
    tmp = tempfile.mkdtemp(prefix="mc13.")
    try:
        for case in chunk:
            name, plan, allowed = case["scenario"], [tuple(p) for p in case["plan"]], case["allowed"]
            turn, r = go(name, plan, tmp)
            res.count("schedules")
            res.count("lines", sum(turn.lines))
            res.count("waited for each other", turn.blocked)
            res.state(digest([name, plan[0], turn.lines, r]))
            if digest(r) not in allowed:
                rs, where = orders(name, tmp)
                if r in rs:
                    continue
                first, k = plan[0]
                at = where[first][k] if k is not None and k < len(where[first]) else None
                diff = [(n, r[n], [x[n] for x in rs]) for n in range(len(r)) if r[n] not in [x[n] for x in rs]]
                diff = diff or [(n, r[n], [x[n] for x in rs]) for n in range(len(r)) if len({x[n] for x in rs}) > 1]
                n, got, want = diff[0]
                what = f"request {n + 1}" if n < 2 else f"question {n - 1} afterwards"
                res.violation(f"{name}:{what}", f"{name}: with request {first + 1} stopped before {at} and the other one "
                              f"executed meanwhile, {what} gives {got[:300]}, one after the other gives "
                              f"{[w[:300] for w in want]}", {k: v for k, v in case.items() if k != "allowed"})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def main():
    chk = Check("C13", "exploration", [
        "two requests at a time", "a thread is stopped before lines of fedservice's own code only; libraries, reading "
        "and writing files and HTTP requests are one step", "no more than two changes of thread"])
    if chk.replay:
        res = work([dict(chk.replay["case"], allowed=[])])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    times = None if chk.thorough else 1
    names = [(n, times) for n, (_, quick) in scenarios().items() if quick or chk.thorough]
    ready = parallel(prepare, chunked(names, len(names)))
    cases = []
    for name, allowed, pts, few, _ in sorted(ready.carry):
        for first in (0, 1):
            if first and any(name.endswith(f"('{o}', '{o}')") for o in ("C", "chains L", "register C", "L A", "T", "get")):
                continue        # the same again
            cases += [{"scenario": name, "plan": [(first, k), (1 - first, None)], "allowed": allowed} for k in pts[first]]
            if (chk.thorough or name.startswith("cache")) and len(few[0]) * len(few[1]) < 9000:
                cases += [{"scenario": name, "plan": [(first, k), (1 - first, l), (first, None)], "allowed": allowed}
                          for k in few[first] for l in few[1 - first]]
    res = parallel(work, chunked(cases, 400 if chk.thorough else 64))
    res.merge(ready)
    for c in ready.carry[::30]:
        res.sample([c[0], c[4]])
    chk.finish(res, {
        "evaluations": res.counts["schedules"], "distinct_nontrivial": len(res.states), "scenarios": len(names),
        "rule": "pairs of requests to observers, intermediates, resolvers, trust mark issuers, providers and clients "
                "in different states; each stopped before each line of fedservice's code it executes" + (
                    "" if chk.thorough else " for the first time") + " while the other one is executed",
        "preemptions": 2 if chk.thorough else "1, for the cache on its own 2", "exhaustive": True,
    })


if __name__ == "__main__":
    main()
