"""C24: automatic registration end to end: precisely those clients and providers that trust chains vouch
for, to each other, can do business, and what the client asks for is what the provider gets.

Real stand-alone clients and real servers in one federation: all federations x trust anchors on both
sides, all deviating request objects at three endpoints, and all histories of two clients, one of them
trying to be the other, while keys and memberships change."""
import mc.env  # noqa
import base64
import copy
import hashlib
import hmac
import itertools
import json
from urllib.parse import parse_qs, urlparse

import checks.c16 as c16
from checks.c15 import Fed, Server, client_md
from checks.c16 import ENDPOINTS, Fed16, assertion, target
from checks.c22 import KEY, make_client
from mc.env import Clock, T0
from mc.fed import PUB, b64, fresh_world, jwks, key_conf, payload_of, serve_entity, sign, verifies
from mc.graph import eid
from mc.op import make_server
from mc.report import Check, Result, chunked, digest, parallel

RP, OP = "openid_relying_party", "openid_provider"


class Fed24(Fed):
    def statement(self, n, sub, fault=None):
        pol = {t: {"contacts": {"add": [n]}} for t in (RP, OP)}
        if self.policy == "rp" and n == "A":
            pol[RP]["response_types"] = {"superset_of": ["strange"]}
        if self.policy == "op" and n == "A":
            pol[OP]["subject_types_supported"] = {"superset_of": ["strange"]}
        self.about[(n, sub)] = {"metadata_policy": pol}
        self.life = int(Clock.now) - T0 + 3600
        return super(Fed, self).statement(n, sub, fault)


class Party:
    """A client or a provider whose entity configuration can be had"""

    def __init__(self, combo, hints):
        self.combo = combo
        self.fe = combo["federation_entity"]
        self.fe.context.authority_hints = [eid(h) for h in hints]

    def serve(self, w):
        serve_entity(w, self.fe)
        return self


def client(hints, anchors, prio="", who="C", key=11):
    return Party(make_client(anchors=anchors, priority=prio, types=("automatic",), who=who, key=key), hints)


def provider(hints, anchors, prio=""):
    p = Party(make_server(OP, eid("O"), KEY["O"], {eid(a): KEY[a] for a in anchors}, protocol_key=10), hints)
    p.fe.context.tr_priority = [eid(a) for a in prio]
    return p


def discovers(cl):
    rp = cl.combo[RP]
    rp.context.issuer, rp.context.provider_info = eid("O"), {}
    try:
        return rp.do_provider_info() == eid("O")
    except Exception:
        return False


def go(cl, args=None):
    """What the client wants sent: (endpoint, parameters)"""
    rp = cl.combo[RP]
    rp.do_client_registration()
    url = urlparse(rp.init_authorization(req_args=args) if args else rp.init_authorization())
    return f"{url.scheme}://{url.netloc}{url.path}", {k: v[0] for k, v in parse_qs(url.query).items()}


def take(op, query):
    """The request as the provider understands it or None"""
    try:
        req = op.combo[OP].get_endpoint("authorization").parse_request(dict(query))
    except Exception:
        return None
    return None if "error" in req else req


def keys_of(op, cid):
    kj = op.combo[OP].get_attribute("keyjar")
    return sorted({k.kid for k in kj.get_signing_key("RSA", cid)})


ARGS = [None, {"scope": ["openid", "email"]}, {"prompt": ["login"]}, {"max_age": 60}, {"login_hint": "me"},
        {"claims": {"userinfo": {"email": {"essential": True}}}}, {"acr_values": ["a", "b"]},
        {"ui_locales": ["sv", "en"]}, {"display": "page"}, {"redirect_uri": eid("C") + "/cb"}]


def flat(v):
    if hasattr(v, "to_dict"):
        v = v.to_dict()
    return v.split(" ") if isinstance(v, str) and " " in v else [v] if isinstance(v, (str, int)) else v


def flow(res, case):
    Clock.reset()
    hints = {"C": case["client"], "O": case["provider"], "M": "A", "N": "MB"}
    fed = Fed24({k: list(v) for k, v in hints.items()}, RP, policy=case.get("policy"))
    fed.key["N"] = 7
    w = fresh_world()
    fed.serve(w)
    op = provider(case["provider"], case["op trusts"], case.get("op prio", "")).serve(w)
    cl = client(case["client"], case["client trusts"], case.get("client prio", "")).serve(w)
    violated = {who: [p for p in fed.chains(who, trusts) if not (case.get("policy") == t and "A" in p[1:])]
                for who, trusts, t in (("C", case["op trusts"], "rp"), ("O", case["client trusts"], "op"))}
    res.count("evaluations")
    bad = None

    def best(paths, prio):
        rank = {a: n for n, a in enumerate(prio)}
        least = min(rank.get(p[-1], 99) for p in paths)
        return [p for p in paths if rank.get(p[-1], 99) == least]

    found = discovers(cl)
    if found != bool(violated["O"]):
        bad = "the provider was found" if found else "the provider wasn't found"
    elif found:
        if cl.fe.trust_chain_anchor not in {eid(p[-1]) for p in best(violated["O"], case.get("client prio", ""))}:
            bad = f"client went by {cl.fe.trust_chain_anchor}"
        try:
            url, query = go(cl, case.get("args"))
        except Exception as err:
            url, query = repr(err), {}
        asked = payload_of(query["request"]) if "request" in query else {}
        got = take(op, query)
        cdb = op.combo[OP].context.cdb
        if url != eid("O") + "/authorization":
            bad = f"sent to {url}"
        elif set(asked) & {"client_id", "redirect_uri", "state", "nonce"} != {
                "client_id", "redirect_uri", "state", "nonce"}:
            bad = f"request object with {sorted(asked)}"
        elif any(flat(asked.get(k)) != flat(v) for k, v in (case.get("args") or {}).items()):
            bad = f"request object with {asked}"
        elif (got is not None) != bool(violated["C"]):
            bad = "not vouched for but accepted" if got is not None else "refused"
        elif got is None:
            if eid("C") in cdb or keys_of(op, eid("C")):
                bad = "refused but registered"
        else:
            res.count("accepted")
            for k in set(asked) - {"iss", "aud", "iat", "exp", "jti"}:
                if flat(got.get(k)) != flat(asked[k]):
                    bad = f"{k} {asked[k]} became {got.get(k)}"
            paths = best(violated["C"], case.get("op prio", ""))
            anchor = op.combo[OP].get_endpoint("authorization").extra_response_args(
                {}, client_id=eid("C")).get("trust_anchor_id")
            contacts = [sorted(p[1:]) for p in paths if eid(p[-1]) == anchor]
            if not contacts:
                bad = f"provider went by {anchor}"
            elif sorted(cdb[eid("C")].get("contacts", [])) not in contacts:
                bad = f"registered contacts {cdb[eid('C')].get('contacts')}"
            elif keys_of(op, eid("C")) != ["k11"]:
                bad = f"keys {keys_of(op, eid('C'))}"
    if bad:
        res.violation(f"{bad[:40]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
        return
    res.states.add(digest(case))
    if case.get("args") and case["client"] == "M":
        res.sample(case)


def asks(res, case):
    """Several authorization requests by the same client: each just what was asked for then"""
    Clock.reset()
    w = fresh_world()
    Fed24({"C": ["A"], "O": ["A"]}, RP).serve(w)
    op = provider("A", "A").serve(w)
    cl = client("A", "A").serve(w)
    discovers(cl)
    seen = set()
    possible = {k for a in ARGS for k in a or {}} - {"scope", "redirect_uri"}
    for n, i in enumerate(case["asks"]):
        args = copy.deepcopy(ARGS[i])
        want = args or {}
        bad = None
        try:
            url, query = go(cl, args)
            asked = payload_of(query["request"])
        except Exception as err:
            query, asked = {}, {"error": repr(err)}
        got = take(op, query) or {}
        res.count("evaluations")
        for where, req in (("asked", asked), ("got", got)):
            if {k for k in req if k in possible} != set(want) & possible:
                bad = f"{where} {sorted(req)}"
            for k, v in want.items():
                if flat(req.get(k)) != flat(v):
                    bad = f"{where} {k} {req.get(k)}"
            if "scope" not in want and flat(req.get("scope")) != ["openid"]:
                bad = f"{where} scope {req.get('scope')}"
        if args != ARGS[i]:
            bad = f"arguments became {args}"
        ids = {asked.get("state"), asked.get("nonce"), asked.get("jti")}
        if len(ids) != 3 or ids & seen:
            bad = bad or "state, nonce or jti used again"
        seen |= ids
        if bad:
            res.violation(f"{bad[:40]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case} {n}", case)
            return
    res.states.add(digest(case))


# ---------------------------------------------------------------------------- request objects
def obj(claims, key, alg="RS256"):
    if alg == "HS256":      # the public key as a secret
        m = b64({"alg": alg}) + "." + b64(claims)
        return m + "." + base64.urlsafe_b64encode(hmac.new(
            json.dumps(PUB[11]).encode(), m.encode(), hashlib.sha256).digest()).decode().rstrip("=")
    return sign(claims, key, alg=alg, headers={"typ": "JWT"})


OBJ = {     # deviation: (inner claims, left out, key, outer parameters, what's to happen)
    "good": ({}, (), 11, {}, True),
    "X's key": ({}, (), 12, {}, False),
    "a new key": ({}, (), 13, {}, False),
    "federation key": ({}, (), KEY["C"], {}, False),
    "anchor's key": ({}, (), KEY["A"], {}, False),
    "server's key": ({}, (), 10, {}, False),
    "public key as secret": ({}, (), "HS256", {}, False),
    "from X": ({"iss": eid("X")}, (), 11, {}, False),
    "as X": ({"client_id": eid("X")}, (), 11, {}, False),
    "from and as X": ({"iss": eid("X"), "client_id": eid("X")}, (), 11, {}, False),
    "X's with C's redirect": ({"iss": eid("X"), "client_id": eid("X")}, (), 12, {}, False),
    "from N": ({"iss": eid("N")}, (), 11, {}, False),
    "from the server": ({"iss": eid("O")}, (), 10, {}, None),
    "as N": ({"client_id": eid("N")}, (), 11, {}, False),
    "no iss": ({}, ("iss",), 11, {}, None),
    "no iss, X's key": ({}, ("iss",), 12, {}, False),
    "redirect": ({"redirect_uri": "https://evil.example.com/"}, (), 11, {}, False),
    "redirect extended": ({"redirect_uri": c16.REDIRECT + "/x"}, (), 11, {}, False),
    "outer redirect": ({}, (), 11, {"redirect_uri": "https://evil.example.com/"}, None),
    "inner scope": ({"scope": "openid email"}, (), 11, {}, True),
    "inner state": ({"state": "inner"}, (), 11, {}, True),
    "truncated": ("truncate", (), 11, {}, False),
    "changed": ("change", (), 11, {}, False),
    "garbage": ("a.b.c", (), 11, {}, False),
    "text": ("tell me", (), 11, {}, False),
    "statement": ("statement", (), 11, {}, False),
}


def objects(res, case):
    """A request object that deviates, and then one that doesn't"""
    Clock.reset()
    which = case["at"]
    kind = ENDPOINTS[which][0]
    typ = {OP: RP}.get(kind, "oauth_client")
    fed = Fed16(c16.STRUCT[case["struct"]], typ)
    fed.metadata["X"][typ]["jwks"] = jwks(12)
    fed.serve(fresh_world())
    s = Server(kind, "A")
    member = bool(fed.chains("C", "A"))
    known = {}
    for c in case.get("known", ""):     # clients the server knows otherwise, without knowing any keys
        known[eid(c)] = {"client_id": eid(c), "client_secret": "s" * 40, "client_salt": "salt" * 2,
                         "redirect_uris": [("https://known.example.com/cb", None)], "response_types_supported": ["code"],
                         "token_endpoint_auth_method": "client_secret_basic", "scope": ["openid"]}
    s.cdb.update(copy.deepcopy(known))
    for n, name in enumerate(case["objects"]):
        inner, left_out, key, outer, must = OBJ[name]
        claims = {"client_id": eid("C"), "iss": eid("C"), "aud": sorted(target(s, which).allowed_target_uris()),
                  "exp": T0 + 300, "iat": T0, "jti": f"{n}", "response_type": "code", "scope": "openid",
                  "state": "st", "nonce": "n" * 40, "redirect_uri": c16.REDIRECT}
        if isinstance(inner, dict):
            claims.update(inner)
        for k in left_out:
            del claims[k]
        token = obj(claims, key) if key != "HS256" else obj(claims, 11, key)
        if inner == "truncate":
            token = token[:-9]
        elif inner == "change":
            token = ".".join([token.split(".")[0], b64(dict(claims, state="changed")), token.split(".")[2]])
        elif inner == "statement":
            token = fed.ec("C")
        elif isinstance(inner, str):
            token = inner
        req = {"client_id": eid("C"), "response_type": "code", "scope": "openid", "state": "st",
               "redirect_uri": c16.REDIRECT, "request": token}
        if which == "par":
            req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
            req["client_assertion"] = assertion(s, which, eid("C"), 11)
        req.update(outer)
        try:
            got = target(s, which).parse_request(req)
        except Exception:
            got = {"error": "exception"}
        ok = "error" not in got
        res.count("evaluations")
        if not member or eid("C") in known:
            must = False
        bad = None
        if any(c16.lasting(s, c) != v for c, v in known.items()):
            bad = "the registration of a known client changed"
        elif must is not None and ok != must:
            bad = "accepted" if ok else "refused"
        elif ok and must:
            for k in ("scope", "state", "redirect_uri", "client_id", "nonce"):
                if flat(got.get(k)) != flat(claims[k]):
                    bad = f"{k} {claims[k]} became {got.get(k)}"
        elif ok and got.get("redirect_uri") != c16.REDIRECT:
            bad = f"redirect to {got.get('redirect_uri')}"
        if not bad and (set(s.cdb) - {eid("C"), eid("X")} or eid("C") in s.cdb and not member and eid("C") not in known):
            bad = f"registered {sorted(s.cdb)}"
        if bad:
            res.violation(f"{bad[:40]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case} {n} {name}", case)
            return
    res.states.add(digest(case))


# -------------------------------------------------------- clients that aren't on their own, where they send it
AE, PAR = "authorization_endpoint", "pushed_authorization_request_endpoint"
SERVER = {RP: OP, "oauth_client": "oauth_authorization_server"}


def make_plain(kind, endpoints, hints, anchors, par=False):
    """An OAuth client or relying party that is just services"""
    from fedservice.utils import make_federation_combo
    t = "oidc" if kind == RP else "oauth2"
    services = {s: {"class": f"fedservice.appclient.{t}.{s}.{s.capitalize()}", "kwargs": {}}
                for s in ("authorization", "registration")}
    conf = {"client_id": eid("C"), "client_type": t, "redirect_uris": [eid("C") + "/cb"],
            "preference": {"grant_types": ["authorization_code"], "response_types": ["code"], "client_name": "x",
                           "token_endpoint_auth_method": "private_key_jwt",
                           "client_registration_types": ["automatic"]},
            "authorization_request_endpoints": list(endpoints), "key_conf": key_conf(11), "services": services}
    if par:
        conf["add_ons"] = {"par": {"function": "idpyoidc.client.oauth2.add_on.par.add_support",
                                   "kwargs": {"authn_method": "private_key_jwt"}}}
    combo = make_federation_combo(
        eid("C"), key_config=key_conf(KEY["C"]), authority_hints=[eid("A")],
        trust_anchors={eid(a): jwks(KEY[a]) for a in anchors}, preference={"organization_name": eid("C")},
        endpoints=["entity_configuration"], services=["entity_configuration", "entity_statement"],
        entity_type={kind: {"class": "fedservice.appclient.ClientEntity",
                            "kwargs": {"config": conf, "services": services, "entity_type": kind}}})
    return Party(combo, hints)


def points_to(cl, kind, md):
    """As the one using the client does it"""
    unit = cl.combo[kind]
    unit.context.issuer = eid("O")
    unit.context.server_metadata = md
    unit.context.provider_info = md[SERVER[kind]]
    return unit.get_service("authorization")


def sent(srv, kind, scope):
    args = {"response_type": "code", "state": "st", "redirect_uri": eid("C") + "/cb", "scope": scope}
    req = srv.construct(request_args=args)
    return req if isinstance(req, dict) else req.to_dict()


def plain_flow(res, case):
    """The authorization request of such a client at the server"""
    Clock.reset()
    from fedservice.entity.function import get_verified_trust_chains
    kind = case["kind"]
    fed = Fed16({"C": list(case["client"]), "O": list(case["provider"]), "M": ["A"], "N": ["M", "B"]}, kind)
    fed.key["N"] = 7
    w = fresh_world()
    fed.serve(w)
    pref = {"grant_types_supported": ["authorization_code"], "subject_types_supported": ["public"],
            "request_authentication_methods_supported": {AE: ["request_object"]}}
    op = Party(make_server(SERVER[kind], eid("O"), KEY["O"], {eid(a): KEY[a] for a in case["op trusts"]},
                           protocol_key=10, preference=pref), case["provider"]).serve(w)
    cl = make_plain(kind, [AE], case["client"], case["client trusts"]).serve(w)
    res.count("evaluations")
    chains = get_verified_trust_chains(cl.combo, eid("O"))
    bad = None
    if bool(chains) != bool(fed.chains("O", case["client trusts"])):
        bad = "found" if chains else "not found"
    elif chains:
        if any(c.anchor not in {eid(a) for a in case["client trusts"]} for c in chains):
            bad = f"anchors {[c.anchor for c in chains]}"
        srv = points_to(cl, kind, chains[0].metadata)
        must = bool(fed.chains("C", case["op trusts"]))
        ep = op.combo[SERVER[kind]].get_endpoint("authorization")
        for n, scope in enumerate((["openid"], ["openid", "email"])):
            try:
                req = sent(srv, kind, scope)
                asked = payload_of(req["request"])
            except Exception as err:
                bad = f"request {n}: {err!r}"
                break
            if (asked.get("iss"), asked.get("client_id"), asked.get("state"), asked.get("redirect_uri")) != (
                    eid("C"), eid("C"), "st", eid("C") + "/cb") or flat(asked.get("scope")) != flat(" ".join(scope)):
                bad = f"request object {asked}"
            elif not verifies(req["request"], jwks(11)):
                bad = "request object not signed with the client's keys"
            elif kind != RP and flat(asked.get("aud")) != [eid("O") + "/authorization"]:
                bad = f"request object for {asked.get('aud')}"
            try:
                got = ep.parse_request(req)
                ok = "error" not in got
            except Exception:
                ok, got = False, {}
            if ok != must:
                bad = "accepted" if ok else "refused"
            elif ok and any(flat(got.get(k)) != flat(asked[k]) for k in ("scope", "state", "redirect_uri", "client_id")):
                bad = f"became {got}"
            elif (eid("C") in op.combo[SERVER[kind]].context.cdb) != must:
                bad = "registered" if not must else "not registered"
            if bad:
                break
            res.count("accepted" if ok else "refused")
    if bad:
        res.violation(f"{bad[:40]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
        return
    res.states.add(digest(case))


SUPPORT = [{AE: ["request_object"]}, {AE: ["private_key_jwt"]}, {PAR: ["private_key_jwt"]},
           {AE: ["request_object"], PAR: ["private_key_jwt"]}, {AE: [], PAR: ["private_key_jwt"]}, None,
           {PAR: ["private_key_jwt"], AE: ["request_object"]}]


def route(res, case):
    """The endpoint first among those the client is set up for that the server does automatic registration at"""
    Clock.reset()
    kind = case["kind"]
    w = fresh_world()
    cl = make_plain(kind, case["endpoints"], "A", "A", par=case["par"])
    pushed = []

    def push(q):
        pushed.append(q)
        return 200, "application/json", json.dumps({"request_uri": f"urn:uuid:{len(pushed)}", "expires_in": 60})
    for n, which in enumerate(case["support"]):
        support = SUPPORT[which]
        md = {"issuer": eid("O"), AE: f"{eid('O')}/authz{n}", PAR: f"{eid('O')}/par{n}"}
        if support is not None:
            md["request_authentication_methods_supported"] = copy.deepcopy(support)
        del pushed[:]
        w.routes.clear()
        w.add(md[PAR], push)
        res.count("evaluations")
        use = next((e for e in case["endpoints"] if e in (support or {})), None)
        try:
            req = sent(points_to(cl, kind, {SERVER[kind]: md}), kind, ["openid"])
        except Exception:
            req = None
        bad = None
        if use is None:
            if support is None and req is not None:
                bad = "neither registered nor a server with automatic registration, but sent"
        elif use == AE and "request_object" not in support[AE] or use == PAR and not case["par"]:
            if req is not None:
                bad = f"sent {sorted(req)}"
        elif req is None:
            bad = f"{use} not used"
        elif use == AE:
            if pushed or "request_uri" in req:
                bad = "pushed"
            elif payload_of(req.get("request", ".e30.")).get("client_id") != eid("C"):
                bad = f"request object in {sorted(req)}"
            elif kind != RP and flat(payload_of(req["request"]).get("aud")) != [md[AE]]:
                bad = f"request object for {payload_of(req['request']).get('aud')}"
        elif len(pushed) != 1 or req.get("request_uri") != "urn:uuid:1":
            bad = f"pushed {len(pushed)} times, sent {sorted(req)}"
        elif payload_of(pushed[0].get("request", ".e30.")).get("redirect_uri") != eid("C") + "/cb" or \
                not verifies(pushed[0]["request"], jwks(11)):
            bad = f"pushed {sorted(pushed[0])}"
        if bad is None and req is not None and req.get("client_id") != eid("C"):
            bad = f"as {req.get('client_id')}"
        if bad:
            res.violation(f"{bad[:40]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case} {n}", case)
            return
    res.states.add(digest(case))


# --------------------------------------------------------------------------------- histories
OPS = [("go", "C"), ("go", "X"), "X as C", "old C", "new keys", "expel", "admit", "violated", ("time", 3603),
       ("time", 86403)]


def history(res, case):
    Clock.reset()
    w = fresh_world()
    fed = Fed24({"C": ["A"], "X": ["A"], "O": ["A"]}, RP)
    fed.serve(w)
    op = provider("A", "A").serve(w)
    cls = {"C": client("A", "A").serve(w), "X": client("A", "A", who="X", key=12).serve(w)}
    old, keys = None, 11
    facts = {"keys": [(-10**9, 11)], "member": [(-10**9, True)], "violated": [(-10**9, False)]}

    def was(k):
        # entity configurations live for a day, what others say about members an hour
        log, since = facts[k], int(Clock.now) - (86400 if k == "keys" else 3600)
        return {v for i, (t, v) in enumerate(log) if i == len(log) - 1 or log[i + 1][0] >= since}

    def set_(k, v):
        if facts[k][-1][1] != v:
            facts[k].append((int(Clock.now), v))

    for n, o in enumerate(list(case["ops"]) + [("go", "C"), ("go", "X")]):
        bad = None
        if o[0] == "go" or o in ("X as C", "old C"):
            who = o[1] if o[0] == "go" else "C"
            frm, key = ("X", 12) if o in (("go", "X"), "X as C") else ("C", keys)
            cl = cls[frm]
            if o == "old C":
                if old is None:
                    continue
                cl, key = old
            member, violated, known = was("member"), was("violated"), was("keys") if who == "C" else {12}
            if who == "X":
                member = {True}
            may = True in member and False in violated and key in known
            must = member == {True} and violated == {False} and known == {key}
            if not discovers(cl):
                bad = "the provider wasn't found"
            else:
                url, query = go(cl)
                if o == "X as C":
                    claims = payload_of(query["request"])
                    claims.update({"client_id": eid("C"), "iss": eid("C"), "redirect_uri": eid("C") + "/cb"})
                    query = {"client_id": eid("C"), "redirect_uri": eid("C") + "/cb", "response_type": "code",
                             "scope": "openid", "request": sign(claims, 12, headers={"typ": "JWT"})}
                others = {c: (dict(v), keys_of(op, c)) for c, v in op.combo[OP].context.cdb.items() if c != eid(who)}
                got = take(op, query)
                res.count("evaluations")
                now_others = {c: (dict(v), keys_of(op, c)) for c, v in op.combo[OP].context.cdb.items()
                              if c != eid(who)}
                if got is not None and not may:
                    bad = "accepted"
                elif got is None and must:
                    bad = "refused"
                elif got is not None and got["client_id"] != eid(who):
                    bad = f"taken for {got['client_id']}"
                elif got is not None and keys_of(op, eid(who)) != [f"k{key}"]:
                    bad = f"keys {keys_of(op, eid(who))}"
                elif others != now_others:
                    bad = "another client's registration changed"
            res.states.add(digest([case["ops"][:n], o]))
        elif o == "new keys":
            old = (cls["C"], keys)
            keys = 14 if keys == 11 else 11
            set_("keys", keys)
            cls["C"] = client("A", "A", key=keys).serve(w)
        elif o in ("expel", "admit"):
            fed.faults = {} if o == "admit" else {("fetch", "A", "C"): "404"}
            set_("member", o == "admit")
        elif o == "violated":
            fed.policy = None if fed.policy else "rp"
            set_("violated", bool(fed.policy))
        else:
            Clock.advance(o[1])
        if bad:
            res.violation(f"{bad[:40]}:{json.dumps(case)}", f"{bad} {case} step {n} {o}", case)
            return


def cases(thorough):
    places = ["", "A", "B", "AB", "BA", "M", "MB", "N", "U"]
    for c in places:
        for o in places:
            for ct in ("A", "B", "AB", "UA", "U"):
                for ot in ("A", "B", "AB", "UA", "U"):
                    if thorough or len({c, o} & {"", "U", "BA", "N"}) < 2 and len({ct, ot} & {"U", "UA"}) < 2:
                        yield {"client": c, "provider": o, "client trusts": ct, "op trusts": ot}
    for c, o in itertools.product(["AB", "MB", "N"] if not thorough else places, repeat=2):
        for cp in ("", "A", "B", "BA", "UB"):
            for opr in ("", "A", "B", "BA", "UB"):
                yield {"client": c, "provider": o, "client trusts": "AB", "op trusts": "AB", "client prio": cp,
                       "op prio": opr}
        for pol in ("rp", "op"):
            for t in ("A", "B", "AB"):
                yield {"client": c, "provider": o, "client trusts": t, "op trusts": t, "policy": pol}
    for args in ARGS:
        for c in ("A", "M", "U"):
            yield {"client": c, "provider": "A", "client trusts": "A", "op trusts": "A", "args": args}
    for n in (1, 2, 3) if thorough else (1, 2):
        for i in itertools.product(range(len(ARGS)), repeat=n):
            yield {"asks": i}
    for at in ENDPOINTS:
        for st in ("A", "M", "AB", "none"):
            for n in OBJ:
                yield {"at": at, "struct": st, "objects": [n, "good"]}
                yield {"at": at, "struct": st, "objects": ["good", n, "good"]}
                for k in ("C", "X", "CX"):
                    yield {"at": at, "struct": st, "objects": [n, "good"], "known": k}
        for a, b in itertools.product(OBJ, repeat=2):
            yield {"at": at, "struct": "A", "objects": [a, b, "good"]}


def plain_cases(thorough):
    for kind in SERVER:
        for c, o in itertools.product(["", "A", "AB", "M", "N", "U"], repeat=2):
            for ct, ot in itertools.product(["A", "B", "AB", "U"] if thorough else ["A", "B", "AB"], repeat=2):
                yield {"kind": kind, "client": c, "provider": o, "client trusts": ct, "op trusts": ot}
        for n in (1, 2):
            for sup in itertools.product(range(len(SUPPORT)), repeat=n):
                for ends in ([AE], [PAR], [AE, PAR], [PAR, AE]):
                    for par in (False, True):
                        # with the add-on of the library, everything is pushed
                        if not par or not any(e == AE for e in (next((e for e in ends if e in (SUPPORT[i] or {})), None)
                                                                for i in sup)):
                            yield {"kind": kind, "endpoints": ends, "support": sup, "par": par}


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            yield {"ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "ops" in case:
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        elif "asks" in case:
            asks(res, case)
        elif "objects" in case:
            objects(res, case)
        elif "support" in case:
            route(res, case)
        elif "kind" in case:
            plain_flow(res, case)
        else:
            flow(res, case)
    return res


def main():
    chk = Check("C24", "exploration", ["requests without a request object are outside (C16)",
                                       "expiry, audience and algorithm 'none' of request objects are the library's"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 5 if chk.thorough else 4
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(plain_cases(chk.thorough)) + list(histories(depth)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "9 places in the federation for the client x 9 for the provider x 5 sets of anchors on each side, "
                "priorities, policies and 10 requests; all pairs (thorough triples) of requests; 26 request objects and all pairs of them at 3 endpoints; "
                "clients that are just services at 6 x 6 places; all their orders of endpoints x pairs of 7 kinds of what servers support; all histories of 10 operations up to the stated length followed by both clients asking",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
