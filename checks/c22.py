"""C22: a client uses a provider only as a valid trust chain about precisely that provider says.

Federations x priorities x provider metadata x faults in front of real stand-alone clients (discovery,
the choice of registration method and what is sent), all ways of selecting among trust chains, and all
histories of pointing a client at different providers while the federation changes."""
import mc.env  # noqa
import copy
import itertools
import json

from checks.c15 import STRUCT, Fed
from checks.c15 import norm as _norm
from mc.env import Clock, T0
from mc.fed import WORLD, fresh_world, jwks, key_conf, mk_response, payload_of, verifies
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel

KEY = {"O": 0, "C": 1, "A": 2, "B": 3, "M": 4, "U": 5, "X": 6}
ME = eid("C")
OPKEY = 10
PKEY = {"O": 10, "X": 12}


def norm(md):
    if isinstance(md.get("jwks"), dict):   # the library drops "use"
        md = dict(md, jwks=sorted(k["kid"] + k["n"] for k in md["jwks"]["keys"]))
    return {k: _norm(v) for k, v in md.items()}


def op_md(n, reg=("automatic", "explicit")):
    md = {"issuer": eid(n), "contacts": ["leaf"], "client_name": n, "jwks": jwks(PKEY.get(n, 13)),
          "authorization_endpoint": eid(n) + "/authz", "token_endpoint": eid(n) + "/token",
          "federation_registration_endpoint": eid(n) + "/register",
          "response_types_supported": ["code"], "subject_types_supported": ["public"],
          "grant_types_supported": ["authorization_code"],
          "id_token_signing_alg_values_supported": ["RS256"],
          "request_parameter_supported": True,
          "token_endpoint_auth_methods_supported": ["private_key_jwt"],
          "request_authentication_methods_supported": {"authorization_endpoint": ["request_object"]}}
    if reg is not None:
        md["client_registration_types_supported"] = list(reg)
    return md


class Fed22(Fed):
    def __init__(self, hints, md="good", policy=None, faults=None, reg=("automatic", "explicit")):
        hints = dict(hints)
        hints["X"] = ["A"]
        super().__init__(hints, "openid_provider", policy, None, faults)
        self.key = dict(KEY)
        self.md = {}
        for n in "OX":
            self.publish(n, md if n == "O" else "good", reg)

    def publish(self, n, md, reg=("automatic", "explicit")):
        m = op_md(n, reg)
        typ = "openid_provider"
        if md == "other issuer":
            m = dict(op_md("X" if n == "O" else "O"), jwks=m["jwks"])
        elif md == "no issuer":
            del m["issuer"]
        elif md == "similar issuer":
            m["issuer"] += "/"
        elif md == "jwks_uri":
            del m["jwks"]
            m["jwks_uri"] = eid(n) + "/jwks.json"
        elif md == "other type":
            typ = "oauth_authorization_server"
        self.md[n] = None if md not in ("good", "jwks_uri") else m
        self.metadata[n] = {typ: m} if md != "no type" else {}

    def statement(self, n, sub, fault=None):
        pol = {"contacts": {"add": [n]}}
        if self.policy == "violated" and n == "A":
            pol["grant_types_supported"] = {"superset_of": ["implicit"]}
        if self.policy == "value":
            pol["client_name"] = {"value": f"{n}s"}
        if self.policy == "automatic" and n == "A":
            pol["client_registration_types_supported"] = {"subset_of": ["automatic"]}
        self.about[(n, sub)] = {"metadata_policy": {"openid_provider": pol}}
        self.life = int(Clock.now) - T0 + 3600
        return super(Fed, self).statement(n, sub, fault)

    def serve(self, w):
        super().serve(w)
        for n in "OX":
            w.add(eid(n) + "/jwks.json", lambda q, n=n: (200, "application/json", json.dumps(
                jwks(PKEY[n]))))

    def resolved(self, md, path):
        md = super().resolved(md, path)
        if md and self.policy == "automatic" and "A" in path[1:] and \
                md.get("client_registration_types_supported") is not None:
            md["client_registration_types_supported"] = [
                t for t in md["client_registration_types_supported"] if t == "automatic"]
            if not md["client_registration_types_supported"]:
                return None
        return md

    def options(self, who, anchors):
        """[(anchor, metadata, must be found)]"""
        if self.md.get(who) is None or ("ec", who) in self.faults:
            return []
        res = []
        for path in self.chains(who, anchors):
            md = self.resolved(self.md[who], path)
            if md is not None:
                res.append((path[-1], md, not self.hints.get(path[-1])))
        return res


def make_client(anchors, priority=(), types=("automatic", "explicit"), registration=True, issuer="O", info=None,
                who="C", key=11):
    from fedservice.utils import make_federation_combo
    services = {"registration": {"class": "fedservice.appclient.oidc.registration.Registration", "kwargs": {}},
                "authorization": {"class": "fedservice.appclient.oidc.authorization.Authorization", "kwargs": {}},
                "accesstoken": {"class": "idpyoidc.client.oidc.access_token.AccessToken", "kwargs": {}}}
    conf = {"client_id": eid(who), "client_type": "oidc", "redirect_uris": [eid(who) + "/cb"],
            "preference": {"grant_types": ["authorization_code"], "response_types": ["code"], "client_name": "x",
                           "token_endpoint_auth_method": "private_key_jwt",
                           "client_registration_types": list(types)},
            "authorization_request_endpoints": ["authorization_endpoint"],
            "key_conf": key_conf(key), "services": services}
    conf["issuer"] = eid(issuer)
    if info:
        conf["provider_info"] = info
    feds = ["entity_configuration", "entity_statement"] + (["oidc_registration"] if registration else [])
    combo = make_federation_combo(
        eid(who), key_config=key_conf(KEY[who]), authority_hints=[eid("A")],
        trust_anchors={eid(a): jwks(KEY[a]) for a in anchors}, preference={"organization_name": eid(who)},
        endpoints=["entity_configuration"], services=feds,
        entity_type={"openid_relying_party": {
            "class": "fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity",
            "kwargs": {"config": conf, "entity_type": "openid_relying_party", "services": services}}})
    combo["federation_entity"].context.tr_priority = [eid(a) for a in priority]
    return combo


class Client:
    def __init__(self, **kw):
        self.combo = make_client(**kw)
        self.rp = self.combo["openid_relying_party"]
        self.fe = self.combo["federation_entity"]
        self.context = self.rp.get_context()
        self.types = list(kw.get("types", ("automatic", "explicit")))
        self.registration = kw.get("registration", True)

    def keys(self, who):
        return sorted(k.n if isinstance(k.n, str) else k.n.decode() for k in
                      self.rp.get_attribute("keyjar").get_signing_key("RSA", who))

    def owners(self):
        kj = self.rp.get_attribute("keyjar")
        return {o: self.keys(o) for o in kj.owners() if self.keys(o)}

    def state(self):
        return copy.deepcopy([
            norm(dict(self.context.provider_info or {})), self.owners(),
            sorted((k, sorted(v)) for k, v in (getattr(self.context, "trust_chain", None) or {}).items()),
            sorted(getattr(self.fe.context, "trust_chain", None) or {})])

    def discover(self):
        """The metadata the client will use or None"""
        try:
            if self.rp.do_provider_info() is None:
                return None
        except Exception:
            return None
        return json.loads(json.dumps(dict(self.context.provider_info)))


def pubs(jwk_set):
    return sorted(k["n"] for k in jwk_set["keys"])


def wrong(cl, who, options, priority):
    """Discovery of a provider; (None or what is wrong, the metadata)"""
    before = cl.state()
    got = cl.discover()
    if got is None:
        after = cl.state()
        if after != before:
            return "refused, but something changed", None
        return ("refused" if any(o[2] for o in options) else None), None
    rank = {eid(a): n for n, a in enumerate(priority)}
    allowed = [o for o in options if not any(
        p[2] and rank.get(eid(p[0]), 99) < rank.get(eid(o[0]), 99) for p in options)]
    if not options:
        return "used", got
    for _, md, _ in allowed:
        if norm(md) == norm(got):
            break
    else:
        why = "someone of less priority" if any(norm(md) == norm(got) for _, md, _ in options) else "other metadata"
        return f"uses what {why} says", got
    old, new = before[1], cl.owners()
    if new.get(eid(who)) != pubs(jwks(PKEY[who])):
        return "has other keys", got
    if {k: v for k, v in old.items() if k != eid(who)} != {k: v for k, v in new.items() if k != eid(who)}:
        return "somebody else's keys changed", got
    return None, got


def registration(cl, got, reg_options):
    """The registration done has to be the one that's right for that provider"""
    w = WORLD[0]
    posts = []
    old = w.request

    def request(method, url, **kw):
        if method.upper() != "POST":
            return old(method, url, **kw)
        posts.append((url, kw.get("data")))
        return mk_response(url, 500, "text/plain", "no")

    w.request = request
    err = None
    try:
        cl.rp.do_client_registration()
    except Exception as e:
        err = e
    del w.request
    verdicts = []
    for md in reg_options:
        verdicts.append(reg_wrong(cl, md, posts, err))
    return None if None in verdicts else verdicts[0]


def reg_wrong(cl, md, posts, err):
    possible = set(md.get("client_registration_types_supported") or []) & set(cl.types)
    if not possible:
        return "registered although no way in common" if posts or err is None else None
    if possible == {"automatic"}:
        return "explicit registration though only automatic" if posts else f"failed {err!r}" if err else None
    if not cl.registration:
        return "registered without the means" if posts else None
    if [u for u, _ in posts] != [md["federation_registration_endpoint"]]:
        return f"asked {[u for u, _ in posts]} for registration {err!r}"
    body = posts[0][1]
    body = body.decode() if isinstance(body, bytes) else body
    if not isinstance(body, str) or not verifies(body, jwks(KEY["C"])):
        return "registration request not signed by the client"
    p = payload_of(body)
    if p["iss"] != ME or p["sub"] != ME:
        return f"registration request from {p['iss']} about {p['sub']}"
    return None


def authorization(cl, md):
    """The request for authorization goes to the provider and is authenticated"""
    from urllib.parse import parse_qs, urlparse
    try:
        url = cl.rp.init_authorization()
    except Exception as e:
        return f"no authorization request {e!r}"
    u = urlparse(url)
    if f"{u.scheme}://{u.netloc}{u.path}" != md["authorization_endpoint"]:
        return f"authorization request to {url}"
    q = {k: v[0] for k, v in parse_qs(u.query).items()}
    if q.get("client_id") != ME:
        return f"client id {q.get('client_id')}"
    if "request" not in q or not verifies(q["request"], jwks(11)):
        return "request not signed by the client"
    p = payload_of(q["request"])
    if p.get("iss") != ME or p.get("client_id") != ME:
        return f"request object from {p.get('iss')} as {p.get('client_id')}"
    return None


# ------------------------------------------------------------------------------ one provider
def hints_for(struct):
    return {("O" if k == "C" else k): list(v) for k, v in STRUCT[struct].items()}


def single(res, case):
    Clock.reset()
    faults = {tuple(k): v for k, v in case.get("faults", [])}
    fed = Fed22(hints_for(case["struct"]), case.get("md", "good"), case.get("policy"), faults,
                case.get("reg", ("automatic", "explicit")))
    fed.serve(fresh_world())
    how = case.get("how", "issuer")
    cl = Client(anchors=case["anchors"], priority=case.get("priority", ""),
                types=case.get("types", ("automatic", "explicit")), registration=case.get("service", True),
                issuer="O" if how == "issuer" else "X", info={"issuer": eid("O")} if how == "info" else None)
    options = fed.options("O", case["anchors"])
    res.count("evaluations")
    bad, got = wrong(cl, "O", options, case.get("priority", ""))
    if not bad and got is not None:
        res.count("used")
        rank = {a: n for n, a in enumerate(case.get("priority", ""))}
        best = min(rank.get(a, 99) for a, _, m in options if m or norm(_) == norm(got))
        regs = [md for a, md, _ in options if rank.get(a, 99) == best or norm(md) == norm(got)]
        bad = registration(cl, got, regs)
        if not bad:
            bad = authorization(cl, got)
    if bad:
        res.violation(f"{bad[:50]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
        return
    res.states.add(digest(case))
    if case.get("priority") and case.get("policy"):
        res.sample(case)


# ----------------------------------------------------------------------------------- selection
class Chain:
    """Stand-in knowing what a selection may look at"""

    def __new__(cls, n, anchor, length):
        from fedservice.entity_statement.statement import TrustChain
        tc = TrustChain(anchor=eid(anchor), chain=["x"] * length, iss_path=[eid("O")] + [eid("M")] * (
            length - 2) + [eid(anchor)], verified_chain=[{}] * length, exp=T0 + 100,
            metadata={"openid_provider": {"n": n}})
        return tc


def select(res, case):
    from fedservice import get_trust_chain, save_trust_chains
    from fedservice.entity_statement.statement import chains2dict
    Clock.reset()
    chains = [Chain(n, a, ln) for n, (a, ln) in enumerate(case["chains"])]
    fe, cl = _units()
    fe.context.tr_priority = [eid(a) for a in case["priority"]]
    rank = {eid(a): n for n, a in enumerate(case["priority"])}
    best = min(rank.get(c.anchor, 99) for c in chains)
    bad = None

    def ok(c):
        return any(c is x for x in chains) and rank.get(c.anchor, 99) == best

    shortest = {}
    for c in chains:
        shortest[c.anchor] = min(shortest.get(c.anchor, 99), len(c.verified_chain))
    for name in ("list", "stored", "client"):
        res.count("evaluations")
        try:
            if name == "list":
                if not ok(fe.pick_trust_chain(chains)):
                    bad = "pick_trust_chain goes against the priority"
            else:
                holder = fe.context if name == "stored" else cl.context
                holder.trust_chain = {eid("X"): {eid("A"): "keep"}}
                save_trust_chains(holder, chains)
                if holder.trust_chain.get(eid("X")) != {eid("A"): "keep"} or set(holder.trust_chain) != {
                        eid("X"), eid("O")}:
                    bad = "saving touches others"
                stored = get_trust_chain(holder, eid("O"))
                if set(stored) != set(shortest) or any(
                        len(get_trust_chain(holder, eid("O"), a).verified_chain) != n for a, n in shortest.items()):
                    bad = "not the shortest saved"
                if get_trust_chain(holder, eid("N")) is not None or \
                        get_trust_chain(holder, eid("O"), eid("N")) is not None:
                    bad = "found what isn't there"
                got = fe.pick_from_stored_trust_chains(eid("O")) if name == "stored" else \
                    cl.pick_from_stored_trust_chains(eid("O"), fe)
                if not ok(got):
                    bad = f"{name} chains picked against the priority"
                holder.trust_chain = {}
        except Exception as err:
            bad = f"{name} {err!r}"
        if bad:
            break
    if set(chains2dict(chains)) != set(shortest):
        bad = "chains2dict"
    if bad:
        res.violation(f"{bad}:{json.dumps(case)}", f"{bad} {case}", case)
        return
    res.states.add(digest(case))


_UNITS = []


def _units():
    if not _UNITS:
        fresh_world()
        combo = make_client(anchors="A")
        _UNITS.extend([combo["federation_entity"], combo["openid_relying_party"]])
    return _UNITS


# ----------------------------------------------------------------------------------- histories
OPS = ["O", "X", "again", "X lies", "X honest", "expel O", "back O", "new keys", "violated", "fine",
       "automatic", ("time", 3603)]


def history(res, case):
    """A client pointed at one provider after another"""
    Clock.reset()
    fed = Fed22({"O": ["A"]})
    fed.serve(fresh_world())
    cl = Client(anchors="A")
    before = dict(PKEY)
    changed = {}
    facts = {"expelled": False, "policy": None, "lies": False, "keys": 10}
    earlier = {k: [v] for k, v in facts.items()}
    try:
        for n, op in enumerate(list(case["ops"]) + ["X", "O"]):
            now = int(Clock.now)

            def set_(k, v):
                if facts[k] != v:
                    changed[k] = now
                    earlier[k].append(facts[k])
                    facts[k] = v

            def was(k):
                """The values the client may reasonably go by"""
                return [facts[k]] + ([x for x in earlier[k]] if now <= changed.get(k, -10**9) + 3600 else [])
            bad = None
            if op in ("O", "X"):
                cl.context.issuer = eid(op)
                cl.context.provider_info = {}
            if op in ("O", "X", "again"):
                who = cl.context.issuer.split("//")[1][0].upper()
                had = norm(dict(cl.context.provider_info or {})) if cl.context.provider_info else None
                res.count("evaluations")
                old = cl.owners()
                state = cl.state()
                got = cl.discover()
                if had:     # already knows
                    if got is None or norm(got) != had or cl.owners() != old:
                        bad = "changed by asking again"
                else:
                    must = "violated" not in was("policy")
                    may = was("policy") != ["violated"]
                    if who == "O":
                        must, may = must and True not in was("expelled"), may and False in was("expelled")
                    else:
                        must, may = must and True not in was("lies"), may and False in was("lies")
                    if got is None:
                        if must:
                            bad = "refused"
                        elif cl.state() != state:
                            bad = "refused, but something changed"
                    elif not may:
                        bad = "used"
                    else:
                        md = dict(op_md(who), contacts=["leaf", "A"])
                        keys = was("keys") if who == "O" else [12]
                        types = [["automatic"] if p == "automatic" else ["automatic", "explicit"]
                                 for p in was("policy") if p != "violated"]
                        if norm(got) not in [norm(dict(md, jwks=jwks(k), client_registration_types_supported=t))
                                             for k in keys for t in types]:
                            bad = "uses other metadata"
                        elif cl.owners().get(eid(who)) not in [pubs(jwks(k)) for k in keys] or \
                                cl.owners()[eid(who)] != pubs(got["jwks"]):
                            bad = "has other keys"
                        elif {k: v for k, v in old.items() if k != eid(who)} != {
                                k: v for k, v in cl.owners().items() if k != eid(who)}:
                            bad = "somebody else's keys changed"
                        else:
                            bad = registration(cl, got, [got])
                res.states.add(digest([case["ops"][:n], op]))
            elif op == "X lies":
                set_("lies", True)
                fed.publish("X", "other issuer")
            elif op == "X honest":
                set_("lies", False)
                fed.publish("X", "good")
            elif op == "expel O":
                set_("expelled", True)
                fed.faults[("fetch", "A", "O")] = "404"
            elif op == "back O":
                set_("expelled", False)
                fed.faults.pop(("fetch", "A", "O"), None)
            elif op == "new keys":
                k = 14 if facts["keys"] == 10 else 10
                set_("keys", k)
                PKEY["O"] = k
                fed.publish("O", "good")
            elif op in ("violated", "fine", "automatic"):
                fed.policy = None if op == "fine" else op
                set_("policy", fed.policy)
            else:
                Clock.advance(op[1])
            if bad:
                res.violation(f"{bad}:{json.dumps(case)}", f"{bad} {case} step {n} {op}", case)
                return
    finally:
        PKEY.update(before)


FS = ("404", "bad signature", "garbage", "no jwks")


def cases(thorough):
    regs = [None, (), ("automatic",), ("explicit",), ("automatic", "explicit")]
    prios = ["", "A", "B", "AB", "BA", "UB", "UA"]
    for st in STRUCT:
        for anchors in ("A", "B", "AB", "BA", "U", "M", "UA"):
            for prio in prios:
                for pol in (None, "value", "violated", "automatic"):
                    yield {"struct": st, "anchors": anchors, "priority": prio, "policy": pol}
    for st in ("A", "M", "AB", "MB"):
        for md in ("good", "other issuer", "no issuer", "similar issuer", "jwks_uri", "other type", "no type"):
            for how in ("issuer", "info"):
                for pol in (None, "value"):
                    yield {"struct": st, "anchors": "AB", "md": md, "how": how, "policy": pol}
        for reg in regs:
            for types in regs[1:]:
                for pol in (None, "automatic"):
                    for service in (True, False):
                        for prio in ("", "B"):
                            yield {"struct": st, "anchors": "AB", "reg": reg, "types": types, "policy": pol,
                                   "service": service, "priority": prio}
        fs = ("404", "bad signature", "expired", "garbage", "other keys", "about another", "by another")
        places = [("fetch", "A", "O"), ("fetch", "B", "O"), ("fetch", "A", "M"), ("fetch", "M", "O"),
                  ("fetch", "B", "M"), ("ec", "O"), ("ec", "M"), ("ec", "A")]
        one = [[[list(p), f]] for p in places for f in (fs if p[0] == "fetch" else FS)]
        two = [[[list(p), f], [list(q), g]] for p, q in itertools.combinations(places, 2)
               for f in (fs if p[0] == "fetch" else FS)
               for g in (fs if thorough and q[0] == "fetch" else FS)
               if {f, g} != {"about another", "by another"}]
        for faults in one + two:
            yield {"struct": st, "anchors": "AB", "faults": faults}
    kinds = [(a, ln) for a in "ABU" for ln in (2, 3)]
    for n in range(1, 5 if thorough else 4):
        for chains in itertools.product(kinds, repeat=n):
            for k in range(4):
                for prio in itertools.permutations("ABUX", k):
                    yield {"chains": chains, "priority": prio}


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            yield {"ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "ops" in case:
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        elif "chains" in case:
            select(res, case)
        else:
            single(res, case)
    return res


def main():
    import idpyoidc.client.service as service
    plain = service.get_http_body       # the installed library doesn't send requests that are JWTs
    service.get_http_body = lambda req, *a, **kw: req if isinstance(req, str) else plain(req, *a, **kw)
    chk = Check("C22", "exploration", ["the installed library's inability to send a registration request that is a "
                                       "JWT is made up for", "what is answered to a registration request: C17"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 5 if chk.thorough else 4
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(depth)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "8 federations x 7 anchor sets x 7 priorities x 4 policies, provider metadata variants x ways to "
                "point at it, registration types of both sides x policies x priorities, single and double faults; "
                "all lists of up to 3 (thorough: 4) trust chains x all priorities through every selection; all "
                "histories of 12 operations up to the stated length followed by two discoveries",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
