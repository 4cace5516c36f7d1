"""C20: logging in. Who the client is told has logged in is who logged in at the provider.

Real stand-alone clients log users in at a real OpenID Provider (found and registered with by federation): all
response types, ways to register and authenticate; all deviations (and pairs of them) of what comes back from the
authorization, token and userinfo endpoints; all histories, up to a depth, of several sessions in one client."""
import mc.env  # noqa
import base64
import copy
import hashlib
import hmac
import itertools
import json
from urllib.parse import parse_qs
from urllib.parse import urlparse

import mc.fed as fedmod
import mc.op as mop
from mc.env import Clock, T0
from mc.fed import PUB, World, b64, header_of, jwks, key_conf, mk_response, payload_of, sign, verifies
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel
from checks.c24 import KEY, Fed24, Party

RP, OP = "openid_relying_party", "openid_provider"
USERS = {"diana": {"name": "Diana", "email": "diana@example.com"}, "bob": {"name": "Bob", "email": "bob@example.com"}}
TYPES = ["code", "id_token", "code id_token"]
TOKEN_LIFE, IDT_LIFE = 1000, 300


def server_config(kind, key, **more):
    conf = plain_config(kind, key, **more)
    endp, handlers = conf["endpoint"], conf["token_handler_args"]
    endp["token"] = mop._endpoint("token", "idpyoidc.server.oidc.token.Token", client_authn_method=[
        "client_secret_post", "client_secret_basic", "private_key_jwt"])
    endp["userinfo"] = mop._endpoint("userinfo", "idpyoidc.server.oidc.userinfo.UserInfo")
    endp["session"] = mop._endpoint("session", "idpyoidc.server.oidc.session.Session",
                                    logout_verify_url=eid("O") + "/verify_logout", client_authn_method=None)
    endp["authorization"]["kwargs"]["response_types_supported"] = TYPES
    handlers["token"]["kwargs"].update(alg="RS256", lifetime=TOKEN_LIFE)
    handlers["refresh"] = {"class": "idpyoidc.server.token.jwt_token.JWTToken",
                           "kwargs": {"lifetime": 86400, "alg": "RS256"}}
    handlers["id_token"] = {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}}
    conf["authentication"] = {"anon": {"acr": "urn:a", "class": "idpyoidc.server.user_authn.user.NoAuthn",
                                       "kwargs": {"user": "diana"}}}
    conf["userinfo"] = {"class": "idpyoidc.server.user_info.UserInfo", "kwargs": {"db": copy.deepcopy(USERS)}}
    minting = ["access_token", "refresh_token", "id_token"]
    conf["authz"] = {"class": "idpyoidc.server.authz.AuthzHandling", "kwargs": {"grant_config": {
        "usage_rules": {"authorization_code": {"supports_minting": minting, "max_usage": 1}, "access_token": {},
                        "refresh_token": {"supports_minting": minting}}, "expires_in": 10 * 86400}}}
    return conf


plain_config = mop.server_config


def provider():
    mop.server_config = server_config
    try:
        return Party(mop.make_server(OP, eid("O"), KEY["O"], {eid("A"): KEY["A"]}, protocol_key=10), "A")
    finally:
        mop.server_config = plain_config


def make_client(reg, authn, types):
    from fedservice.utils import make_federation_combo
    services = {n: {"class": c, "kwargs": {}} for n, c in {
        "registration": "fedservice.appclient.oidc.registration.Registration",
        "authorization": "fedservice.appclient.oidc.authorization.Authorization",
        "accesstoken": "idpyoidc.client.oidc.access_token.AccessToken",
        "refresh_token": "idpyoidc.client.oidc.refresh_access_token.RefreshAccessToken",
        "userinfo": "idpyoidc.client.oidc.userinfo.UserInfo",
        "end_session": "idpyoidc.client.oidc.end_session.EndSession"}.items()}
    conf = {"client_id": eid("C"), "client_type": "oidc", "redirect_uris": [eid("C") + "/cb"],
            "preference": {"grant_types_supported": ["authorization_code", "refresh_token"],
                           "response_types_supported": types, "client_name": "x",
                           "token_endpoint_auth_methods_supported": [authn],
                           "client_registration_types": [reg]},
            "client_authn_methods": ["private_key_jwt", "client_secret_post", "client_secret_basic", "bearer_header"],
            "authorization_request_endpoints": ["authorization_endpoint"],
            "key_conf": key_conf(11), "services": services, "issuer": eid("O")}
    return Party(make_federation_combo(
        eid("C"), key_config=key_conf(KEY["C"]), authority_hints=[eid("A")],
        trust_anchors={eid("A"): jwks(KEY["A"])}, preference={"organization_name": "C"},
        endpoints=["entity_configuration"],
        services=["entity_configuration", "entity_statement", "oidc_registration"],
        entity_type={RP: {"class": "fedservice.appclient.stand_alone_client_entity.StandAloneClientEntity",
                          "kwargs": {"config": conf, "entity_type": RP, "services": services}}}), "A")


class Web(World):
    """Passes requests on to the real provider, with headers; what it answers can be changed underway"""

    def __init__(self):
        super().__init__()
        self.op = None
        self.change = {}        # endpoint name -> function of (status, content type, body)
        self.answers = {}
        self.asked = []

    def request(self, method, url, **kw):
        p = urlparse(url)
        for name, endp in self.op.combo[OP].endpoint.items():
            if endp.full_path == f"{p.scheme}://{p.netloc}{p.path}":
                self.asked.append((name, kw.get("data") or p.query, dict(kw.get("headers") or {})))
                got = self.answer(endp, method, url, kw.get("data") or p.query, kw.get("headers") or {})
                if name in self.change:
                    got = self.change[name](*got)
                self.answers[name] = got
                return mk_response(url, *got)
        return super().request(method, url, **kw)

    def answer(self, endp, method, url, body, headers):
        info = {"headers": {k.lower(): v for k, v in headers.items()}, "method": method, "url": url}
        try:
            req = endp.parse_request(body, http_info=info)
            resp = endp.process_request(req, http_info=info) if "error" not in req else req
            if "error" in resp:
                return 400, "application/json", json.dumps(
                    {k: resp[k] for k in ("error", "error_description") if k in resp}, default=str)
            if "response_msg" in resp or "response" in resp:
                return 200, "application/entity-statement+jwt", resp.get("response_msg") or resp.get("response")
            out = endp.do_response(request=req, **resp)
        except Exception as err:
            return 401, "application/json", json.dumps({"error": "invalid_request", "error_description": repr(err)})
        kind = {k.lower(): v for k, v in out.get("http_headers", [])}.get("content-type", "application/json")
        return 200, kind.split(";")[0], out["response"]


def claims_of(body):
    if body.startswith("{"):
        return json.loads(body)
    return {k: v for k, v in payload_of(body).items() if k not in ("iss", "aud", "iat", "jti", "exp")}


class Site:
    """A client and a provider that have found each other"""

    def __init__(self, reg="automatic", authn="private_key_jwt", types=("code",), client_id=None):
        Clock.reset()
        self.w = Web()
        fedmod.WORLD[0] = self.w
        self.fed = Fed24({"C": ["A"], "X": ["A"], "O": ["A"]}, RP)
        self.fed.serve(self.w)
        self.o = self.w.op = provider().serve(self.w)
        self.op = self.o.combo[OP]
        # the library's provider knows what clients registered by another name only
        self.op.get_endpoint("authorization").verify_response_type = lambda request, cinfo: \
            set(request["response_type"]) in [set(r.split()) for r in cinfo.get("response_types", ["code"])]
        self.c = make_client(reg, authn, list(types)).serve(self.w)
        self.rp = self.c.combo[RP]
        self.rp.context.issuer, self.rp.context.provider_info = eid("O"), {}
        self.client_id = client_id or eid("C")
        if client_id:
            self.w.change["registration"] = self.allot
        if self.rp.do_provider_info() != eid("O"):
            raise ValueError("the provider wasn't found")
        self.rp.do_client_registration()
        self.w.change = {}

    def allot(self, status, kind, body):
        """A provider that gives clients other identifiers than their entity ID"""
        claims = payload_of(body)
        claims["metadata"][RP]["client_id"] = self.client_id
        cdb, kj = self.op.context.cdb, self.op.get_attribute("keyjar")
        cdb[self.client_id] = dict(cdb.pop(eid("C")), client_id=self.client_id)
        kj.import_jwks(kj.export_jwks(issuer_id=eid("C"), private=True), self.client_id)
        return status, kind, sign(claims, KEY["O"], headers={
            k: v for k, v in header_of(body).items() if k not in ("alg", "kid")})

    def begin(self, rtype="code", scope=("openid", "email"), **more):
        """The user goes to the provider. -> state"""
        args = dict(more, scope=list(scope), response_type=rtype)
        url = urlparse(self.rp.init_authorization(req_args=args))
        query = {k: v[0] for k, v in parse_qs(url.query).items()}
        return payload_of(query["request"])["state"] if "request" in query else query["state"], query

    def login(self, query, user):
        """The user logs in there. -> what the browser brings back"""
        self.op.context.authn_broker["anon"]["method"].user = user
        endp = self.op.get_endpoint("authorization")
        req = endp.parse_request(dict(query))
        if "error" in req:
            return {k: v for k, v in req.items()}
        resp = endp.process_request(req)
        args = resp.get("response_args", resp)
        args = args.to_dict() if hasattr(args, "to_dict") else dict(args)
        return {k: " ".join(v) if isinstance(v, list) else v for k, v in args.items()}

    def active(self, state):
        try:
            return bool(self.rp.has_active_authentication(state))
        except KeyError:
            return False

    def token(self, state):
        from idpyoidc.client.exception import OidcServiceError
        try:
            return self.rp.get_valid_access_token(state)[0]
        except (OidcServiceError, KeyError):
            return None

    def finalize(self, response):
        """What the client makes of it; an error or exception: None"""
        try:
            got = self.rp.finalize(dict(response))
        except Exception as err:
            self.err = repr(err)
            return None
        if "error" in got:
            self.err = got
            return None
        return got

    def whose(self, token):
        """What the provider says to this access token, asked directly"""
        status, kind, body = self.w.answer(self.op.endpoint["userinfo"], "GET", "", "",
                                           {"Authorization": f"Bearer {token}"})
        return claims_of(body) if status == 200 else None


def claims_only(info):
    return {k: v for k, v in info.to_dict().items() if k not in ("iss", "aud", "iat", "jti", "exp")}


def check_result(s, got, state, query, user, rtype, scope):
    """What's wrong with what the client says about the login"""
    req = payload_of(query["request"])
    want_idt = "id_token" in rtype.split() or "code" in rtype.split() and rtype != "code token"
    want_token = rtype not in ("id_token",)
    if got["state"] != state or got["issuer"] != eid("O"):
        return f"{got['state']} {got['issuer']}"
    idt = got["id_token"]
    if want_idt:
        if not idt or idt["iss"] != eid("O") or list(idt["aud"]) != [s.client_id] or idt["nonce"] != req["nonce"]:
            return f"ID token {idt}"
        if idt["sub"] != got["userinfo"]["sub"] if "sub" in got["userinfo"] else want_token:
            return f"about {idt['sub']} and {got['userinfo']}"
        if not s.active(state):
            return "no active authentication"
    if want_token:
        if s.token(state) != got["token"] or not got["token"]:
            return "another access token kept"
        mine = s.whose(got["token"])
        info = claims_only(got["userinfo"])
        if mine != info:
            return f"userinfo {info} and not {mine}"
        for k, sc in (("email", "email"), ("name", "profile")):
            if info.get(k) != (USERS[user][k] if sc in scope else None):
                return f"{k} {info.get(k)}"
    elif got["token"]:
        return "an access token"
    return None


def flow(res, case):
    """Nothing goes wrong"""
    rtype, scope, user = case["type"], tuple(case["scope"]), case["user"]
    bad = None
    try:
        s = Site(case["reg"], case["authn"], [rtype], case.get("client_id"))
        state, query = s.begin(rtype, scope, **case.get("more", {}))
    except Exception as err:
        bad = f"couldn't begin: {err!r}"
    else:
        if query["client_id"] != s.client_id or payload_of(query["request"])["client_id"] != s.client_id:
            bad = f"asks as {query['client_id']}"
        if s.active(state) or s.token(state):
            bad = bad or "logged in before"
        back = s.login(query, user)
        got = s.finalize(back) if not bad else None
        if not bad and got is None:
            bad = f"not logged in: {s.err}"
        bad = bad or check_result(s, got, state, query, user, rtype, scope)
        if not bad:
            for name, body, headers in s.w.asked:
                q = {k: v[0] for k, v in parse_qs(body).items()}
                if name == "token" and (q.get("code") != back["code"] or q.get("redirect_uri") != eid("C") + "/cb"):
                    bad = f"token request {q}"
                if name == "token" and case["authn"] == "private_key_jwt" and (
                        "client_assertion" not in q or "client_secret" in q):
                    bad = f"token request {sorted(q)}"
                if name == "token" and case["authn"] == "client_secret_basic" and "Authorization" not in headers:
                    bad = f"token request {sorted(q)} {headers}"
    res.count("evaluations")
    if bad:
        res.violation(f"{bad[:40]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
        return
    res.states.add(digest(case))


# ------------------------------------------------------------------------------- deviations
def hs256(claims, secret):
    m = b64({"alg": "HS256"}) + "." + b64(claims)
    return m + "." + base64.urlsafe_b64encode(
        hmac.new(secret.encode(), m.encode(), hashlib.sha256).digest()).decode().rstrip("=")


def jose(claims, key=10, alg="RS256"):
    return sign(claims, key, alg=alg, headers={"typ": "JWT"})


IDT = {     # what's done to the claims, the key
    "good": ({}, 10), "X's key": ({}, 12), "federation key": ({}, KEY["O"]), "client's key": ({}, 11),
    "anchor's key": ({}, KEY["A"]), "none": ({}, "none"), "public key as secret": ({}, "HS256"),
    "from X": ({"iss": eid("X")}, 12), "from X, own key": ({"iss": eid("X")}, 10), "from C": ({"iss": eid("C")}, 11),
    "no iss": ({"iss": None}, 10), "for X": ({"aud": [eid("X")]}, 10), "no aud": ({"aud": None}, 10),
    "another nonce": ({"nonce": "other"}, 10), "expired": ({"exp": T0 - 1000, "iat": T0 - 2000}, 10),
    "no exp": ({"exp": None}, 10), "another sub": ({"sub": "other"}, 10), "no sub": ({"sub": None}, 10),
    "tampered": ({}, "tampered"), "garbage": ({}, "garbage"),
}


def change_idt(name, token):
    change, key = IDT[name]
    if name == "good":
        return token
    claims = dict(payload_of(token), **change)
    claims = {k: v for k, v in claims.items() if v is not None}
    if key == "none":
        return b64({"alg": "none"}) + "." + b64(claims) + "."
    if key == "HS256":
        return hs256(claims, json.dumps(PUB[10]))
    if key == "garbage":
        return "a.b.c"
    if key == "tampered":
        h, _, sig = token.split(".")
        return f"{h}.{b64(dict(claims, extra=1))}.{sig}"
    return jose(claims, key)


AUTHZ = ["good", "no state", "unknown state", "other's state", "other's code", "garbage code", "error", "unknown error",
         "from X", "for X", "other's response", "empty", "state only"]
TOKEN = ["good", "no access token", "no ID token", "other nonce", "error", "garbage", "empty", "500", "error with tokens",
         "403 with tokens", "no connection", "text"]
INFO = ["good", "other", "no sub", "error", "garbage", "500", "403 with claims", "no connection", "empty", "X's key",
        "tampered", "from X"]


def deviate(res, case):
    """Two sessions; the answers in the first deviate"""
    rtype = case.get("type", "code")
    s = Site(case["reg"], case["authn"], [rtype], case.get("client_id"))
    state, query = s.begin(rtype)
    ostate, oquery = s.begin(rtype)
    third = s.begin(rtype)[1]
    back, oback = s.login(query, "diana"), s.login(oquery, "bob")
    a, t, i, idt = (case.get(k, "good") for k in ("authz", "token", "info", "idt"))
    if a == "no state":
        del back["state"]
    elif a == "unknown state":
        back["state"] = "unknown"
    elif a == "other's state":
        back["state"] = oback["state"]
    elif a == "other's code":
        back["code"] = oback["code"]
    elif a == "other's response":
        back = dict(oback)
    elif a == "garbage code":
        back["code"] = "garbage"
    elif a == "error":
        back = {"error": "access_denied", "state": state}
    elif a == "unknown error":
        back = {"error": "access_denied", "state": "unknown"}
    elif a == "from X":
        back["iss"] = eid("X")
    elif a == "for X":
        back["client_id"] = eid("X")
    elif a == "empty":
        back = {}
    elif a == "state only":
        back = {"state": state}
    if "id_token" in back:
        back["id_token"] = change_idt(idt, back["id_token"])

    def token(status, kind, body):
        resp = json.loads(body) if status == 200 else {}
        if t == "good" and (idt == "good" or "id_token" not in resp):
            return status, kind, body
        if "id_token" in resp:
            resp["id_token"] = change_idt(idt, resp["id_token"])
        if t == "no access token":
            resp.pop("access_token", None)
        elif t == "no ID token":
            resp.pop("id_token", None)
        elif t == "other nonce" and "id_token" in resp:
            resp["id_token"] = jose(dict(payload_of(resp["id_token"]), nonce=payload_of(third["request"])["nonce"]))
        elif t == "error":
            return 400, "application/json", json.dumps({"error": "invalid_grant"})
        elif t == "error with tokens":
            resp["error"] = "invalid_grant"
        elif t == "403 with tokens":
            return 403, kind, json.dumps(resp)
        elif t in ("garbage", "text"):
            return 200, kind if t == "garbage" else "text/plain", "garbage{"
        elif t == "empty":
            return 200, kind, ""
        elif t == "500":
            return 500, kind, json.dumps(resp)
        elif t == "no connection":
            import requests
            raise requests.exceptions.ConnectionError()
        return status, kind, json.dumps(resp)

    def info(status, kind, body):
        if i == "good" or status != 200:
            return status, kind, body
        resp, key = payload_of(body), 10
        if i == "other":
            resp["sub"] = "bob's"
        elif i == "no sub":
            resp.pop("sub", None)
        elif i == "from X":
            resp["iss"] = eid("X")
        elif i == "X's key":
            key = 12
        elif i == "error":
            return 401, "application/json", json.dumps({"error": "invalid_token"})
        elif i == "garbage":
            return 200, kind, "garbage{"
        elif i == "empty":
            return 200, kind, ""
        elif i == "500":
            status = 500
        elif i == "403 with claims":
            status = 403
        elif i == "no connection":
            import requests
            raise requests.exceptions.ConnectionError()
        tok = jose(resp, key)
        if i == "tampered":
            h, _, sig = tok.split(".")
            tok = f"{h}.{b64(dict(resp, email='x@example.com'))}.{sig}"
        return status, kind, tok

    s.w.change = {"token": token, "userinfo": info}
    got = s.finalize(back)
    s.w.change = {}
    res.count("evaluations")
    mine = {"good": state, "other's response": ostate}.get(a)       # whose authorization response it is
    valid = mine and idt in ("good", "another sub")
    must = valid and (rtype == "id_token" or {t, i, idt} == {"good"})
    bad = None
    if rtype != "id_token" and t == "no ID token":
        got = must = None       # the library doesn't insist on one
    elif got is not None and not must:
        bad = "logged in"
    elif got is None and must:
        bad = f"refused: {s.err}"
    elif must and mine == state:
        bad = check_result(s, got, state, query, "diana", rtype, ("openid", "email"))
    elif must:
        bad = check_result(s, got, ostate, oquery, "bob", rtype, ("openid", "email"))
    for st in (state, ostate):
        if must is None:
            break
        if s.active(st) and not (valid and st == mine):
            bad = bad or "an active authentication without a valid ID token"
        if s.token(st) and not (valid and st == mine and t in ("good", "no ID token")):
            bad = bad or "a valid access token without login"
    if not bad and must is not None and mine != ostate and a != "other's code":
        got = s.finalize(oback)         # the other session isn't affected
        if got is None:
            bad = f"the other refused: {s.err}"
        else:
            bad = check_result(s, got, ostate, oquery, "bob", rtype, ("openid", "email"))
            bad = bad and "the other: " + bad
    if bad:
        res.violation(f"{bad[:40]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
        return
    res.states.add(digest(case))


# ------------------------------------------------------------------------------- histories
BYE = "https://c.example.com/bye?x=1"
OPS = ["finish 0", "finish 1", "mix", "error", "refresh", "clear", "logout", "deny", ("time", 330), ("time", 1100)]


def history(res, case):
    """Two sessions of one client (or, from the provider's view, one each of two users)"""
    rtype = case["type"]
    s = Site(case["reg"], case["authn"], [rtype], case.get("client_id"))
    more = {} if rtype == "id_token" else {"scope": ["openid", "email", "offline_access"], "prompt": "consent"}
    ses = []
    for user in ("diana", "bob"):
        state, query = s.begin(rtype, **more)
        ses.append({"state": state, "query": query, "user": user, "back": s.login(query, user), "known": True,
                    "tainted": False, "tainted2": False, "idt": 0, "token": 0, "value": None})
    begun = int(Clock.now)
    for n, op in enumerate(case["ops"]):
        bad = None
        now = int(Clock.now)
        one, two = ses
        if op in ("finish 0", "finish 1", "mix"):
            me = ses[1] if op == "finish 1" else one
            back = dict(me["back"], state=one["state"], code=two["back"].get("code")) if op == "mix" else me["back"]
            got = s.finalize({k: v for k, v in back.items() if v})
            must = me["known"] and ("id_token" not in rtype or now < begun + IDT_LIFE) and (
                "code" not in rtype or not me["tainted"])
            if op == "mix":
                must = rtype == "id_token" and must
            elif must and now > begun + 600 and got is None:
                must = None     # the provider may find it takes too long
            if me["known"] and (rtype == "code" or "code" in rtype and op != "mix"):
                whose = two if op == "mix" else me
                whose["tainted2"] = whose["tainted2"] or whose["tainted"]   # a code used twice: may end it all
                whose["tainted"] = True
                if must is False and me["known"] and got is None and not s.token(me["state"]):
                    me["token"] = 0
            res.count(f"login {must}")
            if got is not None and not must:
                bad = "logged in"
            elif got is None and must:
                bad = f"refused: {s.err}"
            elif must is None:
                return
            elif must:
                bad = check_result(s, got, me["state"], me["query"], me["user"], rtype, ("openid", "email"))
                me.update(idt=got["id_token"]["exp"], token=now + TOKEN_LIFE if got["token"] else 0,
                          value=got["token"], fine=True)
        elif op in ("error", "deny"):
            got = s.finalize({"error": "access_denied" if op == "deny" else "server_error", "state": one["state"]})
            bad = "logged in" if got is not None else None
        elif op == "refresh":
            try:
                got = s.rp.refresh_access_token(one["state"])
            except Exception as err:
                got, s.err = None, repr(err)
            can = one["known"] and one.get("fine") and rtype != "id_token"
            if got is not None and not can:
                bad = "refreshed"
            elif got is None and can and not one["tainted2"]:
                bad = f"not refreshed: {s.err}"
            elif got is not None:
                one.update(token=now + TOKEN_LIFE, value=got["access_token"])
                if got.get("__verified_id_token"):
                    one["idt"] = got["__verified_id_token"]["exp"]
        elif op == "clear":
            try:
                s.rp.clear_session(one["state"])
            except KeyError:
                pass
            one.update(known=False, idt=0, token=0, value=None)
        elif op == "logout":
            try:
                info = s.rp.close(one["state"])
            except Exception as err:
                info, s.err = None, repr(err)
            if info is None and one.get("fine") and one["known"]:
                bad = f"can't log out: {s.err}"
            elif info is not None and one["idt"]:
                hint = info["request"].get("id_token_hint")
                if not hint or payload_of(hint)["nonce"] != payload_of(one["query"]["request"])["nonce"]:
                    bad = "logging someone else out"
                try:
                    back = s.rp.close(one["state"], BYE)["request"].get("post_logout_redirect_uri")
                except Exception as err:
                    back = repr(err)
                if not bad and back != BYE:
                    bad = f"when logged out, to be sent to {back}"
        else:
            Clock.advance(op[1])
        for me in ses:
            bad = bad or probe(s, me)
        res.count("evaluations")
        if bad:
            res.violation(f"{bad[:40]}:{json.dumps(case)}", f"{bad} {case} step {n} {op}", case)
            return
        res.states.add(digest([case["type"], case["reg"], case["authn"], case["ops"][:n + 1]]))


def probe(s, me):
    """What the client says about a session"""
    now = int(Clock.now)
    if s.active(me["state"]) != (now < me["idt"]):
        return f"active {s.active(me['state'])}: {now} {me['idt']}"
    token = s.token(me["state"])
    if (token is not None) != (now < me["token"]) or token and token != me["value"]:
        return f"access token {token}: {now} {me['token']}"
    try:
        info = claims_only(s.rp.get_user_info(me["state"]))
    except Exception as err:
        info, s.err = None, repr(err)
    if info is not None and not me["token"]:
        return "userinfo without login"
    if info is not None and info.get("email") != USERS[me["user"]]["email"]:
        return f"userinfo {info}"
    if info is None and token and not me["tainted2"]:
        return f"no userinfo: {s.err}"
    return None


HOW = [{"reg": "automatic", "authn": "private_key_jwt"}, {"reg": "explicit", "authn": "private_key_jwt"},
       {"reg": "explicit", "authn": "private_key_jwt", "client_id": "allotted"},
       {"reg": "explicit", "authn": "client_secret_post"},
       {"reg": "explicit", "authn": "client_secret_post", "client_id": "allotted"},
       {"reg": "explicit", "authn": "client_secret_basic", "client_id": "allotted"}]
SCOPES = [["openid"] + [x for k, x in enumerate(("email", "profile")) if n >> k & 1] for n in range(4)]


def cases(thorough):
    for how, rtype, scope, user in itertools.product(HOW, TYPES, SCOPES, USERS):
        yield dict(how, type=rtype, scope=scope, user=user, kind="flow")
        if rtype != "id_token":
            yield dict(how, type=rtype, scope=scope + ["offline_access"], user=user, kind="flow",
                       more={"prompt": "consent"})
    dims = {"authz": AUTHZ, "token": TOKEN, "info": INFO, "idt": list(IDT)}
    for rtype in TYPES:
        for n in range(4 if thorough and rtype == "code" else 3):
            for some in itertools.combinations(dims, n):
                for vals in itertools.product(*(dims[d][1:] for d in some)):
                    case = dict(zip(some, vals), type=rtype, kind="deviation")
                    if case.get("authz") == "other's code" and rtype == "id_token":
                        continue
                    for how in HOW if n < 2 or thorough and n < 3 else HOW[:1]:
                        yield dict(how, **case)


def histories(thorough):
    for how in HOW:
        for rtype in TYPES:
            depth = (4 if thorough else 3) if how["reg"] == "automatic" or how.get("client_id") and thorough else 2
            for ops in itertools.product(OPS, repeat=depth):
                yield dict(how, type=rtype, ops=list(ops), kind="history")


def work(chunk):
    res = Result()
    for case in chunk:
        if case["kind"] == "history":
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        else:
            {"flow": flow, "deviation": deviate}[case["kind"]](res, case)
    return res


def main():
    # the installed library can't send what isn't an object, which registration requests aren't
    import idpyoidc.client.service as service
    plain = service.get_http_body
    service.get_http_body = lambda req, *a, **kw: req if isinstance(req, str) else plain(req, *a, **kw)
    chk = Check("C20", "exploration", [
        "the provider sends an ID Token from the token endpoint", "whom userinfo is addressed to isn't judged", "client_secret_basic only with client identifiers without a colon (a shortcoming of the library)"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(chk.thorough)), 64))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "6 ways to be registered and authenticate x 3 response types x 4 scopes x users; all single and pairs "
                "(thorough: triples) of deviations in authorization response, token response, userinfo and ID Token "
                "with a second session going on; all histories of 10 operations on two sessions, probing both after "
                "each",
        "history_length": 4 if chk.thorough else 3, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
