"""Helpers for a demonstration: makes /repo/src importable, keys, signed statements."""
import json
import logging
import os
import sys
import time
import types

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)

try:
    import idpyoidc.key_import  # noqa
except ImportError:
    m = types.ModuleType("idpyoidc.key_import")

    def import_jwks(keyjar, jwks, entity_id=""):
        keyjar.import_jwks(jwks, entity_id)
        return keyjar

    m.import_jwks = import_jwks
    m.import_jwks_as_json = lambda kj, js, entity_id="": import_jwks(kj, json.loads(js), entity_id)
    m.import_jwks_from_file = lambda kj, fn, entity_id="": import_jwks(
        kj, json.loads(open(fn).read()), entity_id)

    def add_kb(keyjar, entity_id, kb):
        keyjar.add_kb(entity_id, kb)
        return keyjar

    m.add_kb = add_kb
    m.issuer_keys = lambda kj, entity_id, format="jwk": [
        k.serialize() for k in kj.get_issuer_keys(entity_id)]

    def store_under_other_id(keyjar, fromID, toID, remove=False):
        for kb in keyjar.return_issuer(fromID):
            keyjar.add_kb(toID, kb)
        return keyjar

    m.store_under_other_id = store_under_other_id
    sys.modules["idpyoidc.key_import"] = m
    import idpyoidc
    idpyoidc.key_import = m

from cryptojwt.jwk.rsa import new_rsa_key  # noqa
from cryptojwt.jws.jws import JWS  # noqa

_keys = {}


def key(owner):
    if owner not in _keys:
        _keys[owner] = new_rsa_key(use="sig", kid=f"k-{owner}")
    return _keys[owner]


def jwks(*owners):
    return {"keys": [key(o).serialize(private=False) for o in owners]}


def statement(iss, sub, signer=None, keys=None, exp=3600, **extra):
    """A signed entity statement"""
    now = int(time.time())
    p = {"iss": iss, "sub": sub, "iat": now - 60, "exp": now + exp,
         "jwks": jwks(*(keys or [sub]))}
    p.update(extra)
    return JWS(json.dumps(p), alg="RS256").sign_compact(
        [key(signer or iss)], protected={"typ": "entity-statement+jwt"})


def entity(entity_id, **kw):
    from fedservice.utils import make_federation_entity
    kw.setdefault("preference", {"organization_name": entity_id})
    kw.setdefault("key_config", {"key_defs": [{"type": "RSA", "use": ["sig"]}]})
    return make_federation_entity(entity_id, **kw)


class Net:
    """All HTTP goes here: url (without query) -> func(query) -> (status, content type, body)"""

    def __init__(self):
        self.routes = {}
        self.log = []
        import requests
        from urllib.parse import parse_qs, urlparse

        def request(_self, method, url, **kw):
            self.log.append(url)
            u = urlparse(url)
            f = self.routes.get(f"{u.scheme}://{u.netloc}{u.path}")
            if f is None:
                raise requests.exceptions.ConnectionError(url)
            st, ct, body = f({k: v[0] for k, v in parse_qs(u.query).items()})
            r = requests.models.Response()
            r.status_code, r._content, r.url, r.encoding = st, body.encode(), url, "utf-8"
            r.headers["Content-Type"] = ct
            return r

        import requests.sessions
        requests.sessions.Session.request = request

    def entity(self, eid, subs=None, hints=None, fetch=True, **extra):
        """A statically served federation entity; subs: subordinate -> extra claims"""
        md = extra.pop("metadata", {})
        if fetch:
            md = dict(md, federation_entity=dict(md.get("federation_entity", {}),
                                                 federation_fetch_endpoint=f"{eid}/fetch"))
        ec = dict(extra, metadata=md)
        if hints:
            ec["authority_hints"] = hints
        es = "application/entity-statement+jwt"
        self.routes[f"{eid}/.well-known/openid-federation"] = lambda q: (
            200, es, statement(eid, eid, **ec))

        def fetch_(q):
            sub = q.get("sub")
            if sub not in (subs or {}):
                return 404, "application/json", '{"error": "not_found"}'
            return 200, es, statement(eid, sub, **subs[sub])

        self.routes[f"{eid}/fetch"] = fetch_


def check(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)


def meanwhile(setup, where, stride=1):
    """setup() -> (first, second, verify): before each line of the files named in <where> that the
    first executes, the second is run, in an execution of its own."""
    nth = 0
    while True:
        first, second, verify = setup()
        count, got = [0], {}

        def trace(frame, event, arg):
            if not any(frame.f_code.co_filename.endswith(w) for w in where):
                return None
            if event == "line":
                count[0] += 1
                if count[0] == nth + 1:
                    sys.settrace(None)
                    frame.f_trace = None
                    got["second"] = second()
                    return None
            return trace

        sys.settrace(trace)
        try:
            got["first"] = first()
        finally:
            sys.settrace(None)
        if "second" not in got:
            return nth
        verify(got["first"], got["second"])
        nth += stride
