"""A federation described as a graph, served as static signed statements."""
import mc.env  # noqa
import json

from mc.env import T0
from mc.fed import ES_TYPE, jwks, sign

GOOD = "good"


def eid(n):
    return f"https://{n.lower()}.example.com"


class Graph:
    """hints: {name: [names]}; key: {name: key number}; fault(kind, name, sub) -> fault name or None"""

    def __init__(self, hints, key, faults=None, life=3600, ec_life=3600, about=None, metadata=None):
        self.hints, self.key = hints, key
        self.faults = faults or {}
        self.life, self.ec_life = life, ec_life
        self.about = about or {}     # (issuer, subject) -> extra claims in the statement
        self.metadata = metadata or {}
        self.requests = []

    def ec(self, n, fault=None):
        md = {"federation_entity": {"organization_name": n,
                                    "federation_fetch_endpoint": eid(n) + "/fetch"}}
        md.update(self.metadata.get(n, {}))
        p = {"iss": eid(n), "sub": eid(n), "iat": T0 - 60, "exp": T0 + self.ec_life,
             "jwks": jwks(self.key[n]), "metadata": md}
        if self.hints.get(n):
            p["authority_hints"] = [eid(h) for h in self.hints[n]]
        key = self.key[n]
        if fault == "bad signature":
            key = 15
        if fault == "no fetch endpoint":
            del md["federation_entity"]["federation_fetch_endpoint"]
        if fault == "no metadata":
            del p["metadata"]
        if fault == "no jwks":
            del p["jwks"]
        return sign(p, key)

    def statement(self, n, sub, fault=None):
        p = {"iss": eid(n), "sub": eid(sub), "iat": T0 - 60, "exp": T0 + self.life,
             "jwks": jwks(self.key[sub])}
        p.update(self.about.get((n, sub), {}))
        key = self.key[n]
        if fault == "bad signature":
            key = 15
        elif fault == "expired":
            p["exp"] = T0 - 10
        elif fault == "about another":
            p["sub"] = "https://other.example.com"
        elif fault == "by another":
            p["iss"] = "https://third.example.com"
        elif fault == "other keys":
            p["jwks"] = jwks(14)
        elif fault == "no exp":
            del p["exp"]
        elif fault == "no jwks":
            del p["jwks"]
        return sign(p, key)

    def serve(self, world):
        names = {eid(n): n for n in self.key}

        def reply(tag, fault, good):
            def raw():
                if fault == "404":
                    return 404, "text/plain", "nope"
                if fault == "500":
                    return 500, "text/plain", "boom"
                if fault == "no connection":
                    import requests
                    raise requests.exceptions.ConnectionError("down")
                if fault == "garbage":
                    return 200, ES_TYPE, "<html>hello</html>"
                if fault == "empty":
                    return 200, ES_TYPE, ""
                if fault == "half":
                    tok = good(None)
                    return 200, ES_TYPE, tok[:len(tok) // 2]
                if fault == "json":
                    return 200, "application/json", json.dumps({"error": "server_error"})
                return 200, ES_TYPE, good(fault)
            self.requests.append(tag)
            return raw()

        for n in self.key:
            world.add(eid(n) + "/.well-known/openid-federation",
                      lambda q, n=n: reply(("ec", n), self.faults.get(("ec", n)),
                                           lambda f: self.ec(n, f)))

            def fetch(q, n=n):
                sub = names.get(q.get("sub", eid(n)))
                fault = self.faults.get(("fetch", n, sub)) or self.faults.get(("fetch", n, "*"))
                if sub is None or (sub != n and n not in self.hints.get(sub, [])):
                    fault = fault or "404"
                return reply(("fetch", n, sub), fault, lambda f: self.statement(n, sub, f))
            world.add(eid(n) + "/fetch", fetch)


EC_FAULTS = ["404", "500", "no connection", "garbage", "empty", "half", "json", "bad signature",
             "no fetch endpoint", "no metadata", "no jwks"]
FETCH_FAULTS = ["404", "500", "no connection", "garbage", "empty", "half", "json", "bad signature",
                "expired", "about another", "by another", "no exp", "no jwks"]


def simple_paths(hints, leaf):
    """All loop free paths up from leaf, as tuples leaf first; with 'is it maximal'"""
    res = []

    def walk(path):
        ups = [h for h in dict.fromkeys(hints.get(path[-1], [])) if h not in path]
        if len(path) > 1:
            res.append((tuple(path), not ups))
        for u in ups:
            walk(path + [u])

    walk([leaf])
    return res
