"""C07: what an entity remembers about others is only used as long as it is valid, and never stands
in the way of what is valid now.

Every history of queries, passing time, and changes in the federation (the leaf publishes new
metadata, the anchor changes its policy, drops and re-admits the intermediate, the intermediate
changes keys or moves to another superior) up to a depth, on one real entity with all its caches."""
import mc.env  # noqa
import itertools

from mc.env import Clock, T0
from mc.fed import ES_TYPE, fresh_world, jwks, make_entity, sign
from mc.report import Check, Result, chunked, parallel

from fedservice.entity.function import get_verified_trust_chains

L, A, C = "https://l.example.com", "https://a.example.com", "https://c.example.com"
M, D = "https://m.example.com", "https://d.example.com"
LONG = 9000      # how long everything about M but its superiors lasts
QUERIES = ["chains", "fe.get_trust_chains", "fe.get_verified_metadata", "chains of A", "chains of M",
           "collector.get_metadata"]
EVENTS = ["leaf changes", "policy changes", "drop A", "admit A", "A announces key",
          "A switches key", "A moves", "+300", "+703", "+1502", "+3603"]
LIVES = [  # leaf configuration, A about L, C about A, configurations of A and C
    (3600, 1000, 2000, 1200), (1000, 3600, 2000, 3600), (1200, 2000, 1000, 800),
    (700, 700, 700, 700),
]


class Fed:
    def __init__(self, lives):
        Clock.reset()
        self.lives = lives
        self.now = T0
        self.leaf, self.policy = 0, 0
        self.admitted, self.announced, self.switched = True, False, False
        self.clash_time = None
        self.moved = False
        self.served = {}
        w = fresh_world()
        for e in (L, A, C, D, M):
            w.add(e + "/.well-known/openid-federation", lambda q, e=e: self.ec(e))
        w.add(A + "/fetch", lambda q: self.statement(A, q.get("sub"), False))
        w.add(A + "/fetch2", lambda q: self.statement(A, q.get("sub"), True))
        w.add(C + "/fetch", lambda q: self.statement(C, q.get("sub")))
        w.add(D + "/fetch", lambda q: self.statement(D, q.get("sub")))
        self.fe = make_entity("https://obs.example.org", 0, trust_anchors={C: jwks(4), D: jwks(6)})

    def reply(self, p, key):
        tok = sign(p, key)
        self.served[(p["iss"], p["sub"], p["iat"], p["exp"], p.get("x"))] = p
        return 200, ES_TYPE, tok

    def akeys(self):
        return jwks(2, 3) if self.announced else jwks(2)

    def asign(self):
        return 3 if self.switched else 2

    def ec(self, e):
        life = {L: self.lives[0], M: LONG}.get(e, self.lives[3])
        at = "/fetch2" if e == A and self.moved else "/fetch"
        p = {"iss": e, "sub": e, "iat": self.now, "exp": self.now + life, "x": None,
             "metadata": {"federation_entity": {"federation_fetch_endpoint": e + at,
                                                "organization_name": "any"}}}
        if e == L:
            p.update(jwks=jwks(1), authority_hints=[A], x=self.leaf)
            p["metadata"]["openid_relying_party"] = {"client_name": f"v{self.leaf}",
                                                     "contacts": ["me"]}
            return self.reply(p, 1)
        if e == A:
            p.update(jwks=self.akeys(), authority_hints=[D if self.moved else C])
            return self.reply(p, self.asign())
        if e == M:
            p.update(jwks=jwks(5), authority_hints=[A])
            return self.reply(p, 5)
        k = 4 if e == C else 6
        p.update(jwks=jwks(k))
        return self.reply(p, k)

    def statement(self, iss, sub, new=None):
        if iss == A and sub in (L, M) and new == self.moved:
            life = self.lives[1] if sub == L else LONG
            p = {"iss": A, "sub": sub, "iat": self.now, "exp": self.now + life,
                 "jwks": jwks(1 if sub == L else 5), "x": None}
            return self.reply(p, self.asign())
        if sub == A and (iss == D and self.moved or
                         iss == C and self.admitted and not self.moved):
            p = {"iss": iss, "sub": A, "iat": self.now, "exp": self.now + self.lives[2],
                 "jwks": self.akeys(), "x": self.policy, "metadata_policy": {
                     "openid_relying_party": {"contacts": {"add": [f"p{self.policy}"]}}}}
            return self.reply(p, 4 if iss == C else 6)
        return 404, "text/plain", "no"

    def event(self, ev):
        if ev.startswith("+"):
            self.now += int(ev)
            Clock.now = self.now
        elif ev == "leaf changes":
            self.leaf += 1
        elif ev == "policy changes":
            self.policy += 1
        elif ev in ("drop A", "admit A"):
            self.admitted = ev == "admit A"
        elif ev == "A announces key":
            self.announced = True
        elif ev == "A switches key":
            self.announced = self.switched = True
            self.clash_time = self.now
        elif ev == "A moves":
            self.moved = True
            self.clash_time = self.now

    def alive(self, who=L):
        """A client that knows nothing would find a chain, and nothing it may remember clashes"""
        if not self.admitted and not self.moved:
            return False
        longest = LONG if who == M else max(self.lives)
        return self.clash_time is None or self.now > self.clash_time + longest + 1

    def wrong(self, query):
        """-> (kind, message) or None"""
        who = {"chains of A": A, "chains of M": M}.get(query, L)
        try:
            if query.startswith("chains"):
                tcs = get_verified_trust_chains(self.fe, who)
            elif query == "fe.get_trust_chains":
                tcs = self.fe.get_trust_chains(L)
            elif query == "fe.get_verified_metadata":
                md = self.fe.get_verified_metadata(L)
                if not md:
                    return ("unavailable", "no metadata") if self.alive(who) else None
                return self.wrong_metadata(md, None)
            else:
                md = self.fe.function.trust_chain_collector.get_metadata(L)
                name = md["openid_relying_party"]["client_name"]
                ok = {f"v{p['x']}" for p in self.served.values()
                      if p["iss"] == L and p["exp"] >= self.now}
                if name not in ok:
                    return "stale", f"{name} is from an expired configuration"
                return None
        except Exception as err:
            return ("crash", repr(err)) if self.alive(who) else None
        if not tcs:
            return ("unavailable", "no chain found") if self.alive(who) else None
        for tc in tcs:
            for p in tc.verified_chain:
                if p["exp"] < self.now:
                    return "expired", f"{p['iss']} about {p['sub']} expired {self.now - p['exp']} s ago"
                if (p["iss"], p["sub"], p["iat"], p["exp"], p.get("x")) not in self.served:
                    return "unknown", f"never served {p}"
            if tc.exp != min(p["exp"] for p in tc.verified_chain):
                return "exp", f"exp {tc.exp}"
            if who == L:
                bad = self.wrong_metadata(tc.metadata, tc)
                if bad:
                    return bad
        return None

    def wrong_metadata(self, md, tc):
        rp = md.get("openid_relying_party", {})
        now = self.now
        if tc:
            leafs = {p.get("x") for p in tc.verified_chain if p["iss"] == L}
            pols = {p.get("x") for p in tc.verified_chain if p["iss"] in (C, D) and p["sub"] == A}
        else:
            leafs = {p["x"] for p in self.served.values() if p["iss"] == L and p["exp"] >= now}
            pols = {p["x"] for p in self.served.values()
                    if p["iss"] in (C, D) and p["sub"] == A and p["exp"] >= now}
            live = [p for p in self.served.values() if (p["iss"], p["sub"]) == (A, L)
                    and p["exp"] >= now]
            if not live:
                return "expired", "the intermediate's statement has expired"
        if rp.get("client_name") not in {f"v{x}" for x in leafs}:
            return "stale", f"{rp} from an outdated configuration, current {leafs}"
        if set(rp.get("contacts", [])) not in [{"me", f"p{x}"} for x in pols]:
            return "stale", f"{rp} not according to a current policy {pols}"
        return None

    def state(self):
        col = self.fe.function.trust_chain_collector
        return repr((self.now - T0, self.leaf, self.policy, self.admitted, self.announced,
                     self.switched, self.moved, sorted(col.config_cache.keys()),
                     sorted(col.entity_statement_cache.keys()), sorted(self.fe.trust_chain)))


def run(res, lives, hist):
    f = Fed(lives)
    for n, op in enumerate(hist):
        res.count("transitions")
        if op in QUERIES:
            bad = f.wrong(op)
            if bad:
                h = list(hist[:n])
                res.violation(f"{bad[0]}:{op}:{lives}:{h}", f"'{op}' after {h} with lifetimes "
                              f"{lives}: {bad[1]}", {"lives": lives, "hist": list(hist[:n + 1])})
                return
        else:
            f.event(op)
        res.states.add(hash(f.state()))
    res.count("histories")
    res.sample({"lives": lives, "history": list(hist)})


def work(chunk):
    res = Result()
    for lives, hist in chunk:
        run(res, lives, hist)
    return res


def histories(thorough):
    """Every history up to the depth, query last, without two changes that cancel out"""
    for lives in LIVES:
        depth = 5 if thorough and lives in LIVES[:2] else 4
        for h in itertools.product(QUERIES + EVENTS, repeat=depth - 1):
            if not any(x in QUERIES for x in h):
                continue            # nothing remembered
            if any(a == b and not a.startswith("+") for a, b in zip(h, h[1:])):
                continue
            if h[0] in ("admit A", "leaf changes", "policy changes") or h[0].startswith("+"):
                continue            # the same as without it
            for q in QUERIES:
                yield lives, h + (q,)


def main():
    chk = Check("C07", "model_checking", [
        "a change of keys is only required to go unnoticed once everything older has expired",
        "an entity may use remembered statements until they expire",
    ])
    if chk.replay:
        res = Result()
        c = chk.replay["case"]
        run(res, tuple(c["lives"]), c["hist"])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    todo = list(histories(chk.thorough))
    if not chk.thorough:
        todo = [t for n, t in enumerate(todo) if t[0] in LIVES[:2]] + \
               [t for t in todo if t[0] in LIVES[2:] and t[1][0] in QUERIES and t[1][-1] in
                QUERIES[:2]]
    res = parallel(work, chunked(todo, 128))
    chk.finish(res, {
        "states": len(res.states), "transitions": res.counts["transitions"],
        "traces_validated_against_impl": res.counts.get("histories", 0),
        "depth": 5 if chk.thorough else 4, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
