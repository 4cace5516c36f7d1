"""A federation in one process: signed statements, a fake HTTP layer, real entities."""
import base64
import json
import os
import tempfile
from urllib.parse import parse_qs
from urllib.parse import urlparse

from mc.env import Clock  # noqa: F401  (must come before fedservice)

import requests
import requests.sessions
from cryptojwt.jwk.rsa import RSAKey
from cryptojwt.jws.jws import JWS

_HERE = os.path.dirname(os.path.abspath(__file__))
PRIV = json.load(open(os.path.join(_HERE, "keys.json")))
KEYS = [RSAKey(**k) for k in PRIV]
for _k in KEYS:
    _k.deserialize()
PUB = [k.serialize(private=False) for k in KEYS]


def jwks(*idx):
    return {"keys": [dict(PUB[i]) for i in idx]}


_sign_cache = {}


def sign(payload, key, alg="RS256", headers=None):
    """Sign a payload with test key number `key`; memoised."""
    body = json.dumps(payload, sort_keys=True)
    ck = (body, key, alg, json.dumps(headers or {}, sort_keys=True))
    if ck not in _sign_cache:
        hdr = {"typ": "entity-statement+jwt"}
        hdr.update(headers or {})
        _jws = JWS(body, alg=alg)
        _sign_cache[ck] = _jws.sign_compact([KEYS[key]], protected=hdr)
    return _sign_cache[ck]


def b64(data):
    if isinstance(data, (dict, list)):
        data = json.dumps(data, sort_keys=True)
    if isinstance(data, str):
        data = data.encode()
    return base64.urlsafe_b64encode(data).rstrip(b"=").decode()


def payload_of(token):
    part = token.split(".")[1]
    return json.loads(base64.urlsafe_b64decode(part + "=" * (-len(part) % 4)))


def header_of(token):
    part = token.split(".")[0]
    return json.loads(base64.urlsafe_b64decode(part + "=" * (-len(part) % 4)))


def verifies(token, jwk_set):
    """Independent signature check (RS256 only) against a JWKS, with the cryptography package."""
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    from cryptography.hazmat.primitives.asymmetric import rsa
    h, p, s = token.split(".")
    hdr = header_of(token)
    if hdr.get("alg") != "RS256":
        return False

    def num(x):
        return int.from_bytes(base64.urlsafe_b64decode(x + "=" * (-len(x) % 4)), "big")

    sig = base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))
    for k in jwk_set["keys"]:
        if k.get("kty") != "RSA":
            continue
        pk = rsa.RSAPublicNumbers(num(k["e"]), num(k["n"])).public_key()
        try:
            pk.verify(sig, f"{h}.{p}".encode(), padding.PKCS1v15(), hashes.SHA256())
            return True
        except Exception:
            continue
    return False


# ------------------------------------------------------------------------------------ HTTP

class World:
    """Every HTTP request made in this process ends up here. Handlers by exact URL (without
    query) -> callable(query: dict) -> (status, content_type, body) ; unknown URL -> connection
    error. `log` records the requests."""

    def __init__(self):
        self.routes = {}
        self.log = []

    def add(self, url, func):
        self.routes[url] = func

    def request(self, method, url, **kw):
        self.log.append(url)
        p = urlparse(url)
        base = f"{p.scheme}://{p.netloc}{p.path}"
        func = self.routes.get(base)
        if func is None:
            raise requests.exceptions.ConnectionError(f"no route to {url}")
        query = {k: v[0] for k, v in parse_qs(p.query).items()}
        if kw.get("data") and not query:
            try:
                query = {k: v[0] for k, v in parse_qs(kw["data"]).items()}
            except Exception:
                pass
        r = func(query)
        return mk_response(url, *r)


def mk_response(url, status, ctype, body):
    r = requests.models.Response()
    r.status_code = status
    r._content = body.encode() if isinstance(body, str) else body
    r.headers["Content-Type"] = ctype
    r.url = url
    r.encoding = "utf-8"
    return r


WORLD = [World()]


def _session_request(self, method, url, **kw):
    return WORLD[0].request(method, url, **kw)


requests.sessions.Session.request = _session_request


def fresh_world():
    WORLD[0] = World()
    return WORLD[0]


ES_TYPE = "application/entity-statement+jwt"

# ------------------------------------------------------------------------------- entities
_keyfiles = {}


def key_conf(i):
    """key_conf for an entity that owns test key number i."""
    import atexit
    import shutil
    if i not in _keyfiles:
        d = tempfile.mkdtemp(prefix="mckeys.")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        path = os.path.join(d, "jwks.json")
        json.dump({"keys": [PRIV[i]]}, open(path, "w"))
        _keyfiles[i] = path
    return {"private_path": _keyfiles[i], "key_defs": [{"type": "RSA", "use": ["sig"]}],
            "read_only": True}


def make_entity(entity_id, key, **kw):
    from fedservice.utils import make_federation_entity
    kw.setdefault("preference", {"organization_name": entity_id})
    return make_federation_entity(entity_id, key_config=key_conf(key), **kw)


def serve_entity(world, fe):
    """Route HTTP requests to the endpoints of a real federation entity."""
    def handler(endp):
        def func(query):
            req = endp.parse_request(dict(query)) if query else {}
            try:
                resp = endp.process_request(req)
            except Exception as err:
                return 500, "text/plain", repr(err)
            if "error" in resp:
                return 404, "application/json", json.dumps(
                    resp.to_dict() if hasattr(resp, "to_dict") else dict(resp))
            for k in ("response", "response_msg", "http_response"):
                if k in resp:
                    return 200, endp.response_content_type, resp[k]
            args = resp.get("response_args")
            if isinstance(args, str):
                return 200, endp.content_type or ES_TYPE, args
            return 200, "application/json", json.dumps(args)
        return func

    for endp in fe.server.endpoint.values():
        world.add(endp.full_path, handler(endp))
