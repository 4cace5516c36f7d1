"""Environment for every check: /repo/src on the path, virtual time, quiet logs, and a stand-in
for the one module the installed idpyoidc lacks (idpyoidc.key_import), as thin as its name."""
import datetime as _dt
import logging
import os
import sys
import time as _time
import types

REPO = os.environ.get("FEDSERVICE_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
_src = os.path.join(REPO, "src")
if _src not in sys.path:
    sys.path.insert(0, _src)

T0 = 1_700_000_000


class Clock:
    now = float(T0)

    @classmethod
    def set(cls, value):
        cls.now = float(value)

    @classmethod
    def reset(cls):
        cls.now = float(T0)

    @classmethod
    def advance(cls, delta):
        cls.now += delta


_time.time = lambda: Clock.now
_time.time_ns = lambda: int(Clock.now * 10**9)
_real_gmtime = _time.gmtime
_real_localtime = _time.localtime
_time.gmtime = lambda secs=None: _real_gmtime(Clock.now if secs is None else secs)
_time.localtime = lambda secs=None: _real_localtime(Clock.now if secs is None else secs)
_RealDatetime = _dt.datetime


class _Meta(type(_RealDatetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDatetime)


class FakeDatetime(_RealDatetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _RealDatetime.fromtimestamp(Clock.now, tz)

    @classmethod
    def utcnow(cls):
        return _RealDatetime.fromtimestamp(Clock.now, _dt.timezone.utc).replace(tzinfo=None)


_dt.datetime = FakeDatetime

logging.disable(logging.CRITICAL)


def _install_key_import():
    try:
        import idpyoidc.key_import  # noqa: F401
        return
    except ImportError:
        pass
    import json
    m = types.ModuleType("idpyoidc.key_import")

    def import_jwks(keyjar, jwks, entity_id=""):
        keyjar.import_jwks(jwks, entity_id)
        return keyjar

    def import_jwks_as_json(keyjar, js, entity_id=""):
        return import_jwks(keyjar, json.loads(js), entity_id)

    def import_jwks_from_file(keyjar, filename, entity_id=""):
        with open(filename) as fp:
            return import_jwks_as_json(keyjar, fp.read(), entity_id)

    def add_kb(keyjar, entity_id, kb):
        keyjar.add_kb(entity_id, kb)
        return keyjar

    def issuer_keys(keyjar, entity_id, format="jwk"):
        ks = keyjar.get_issuer_keys(entity_id)
        return [k.serialize() for k in ks] if format == "jwk" else list(ks)

    def store_under_other_id(keyjar, fromID, toID, remove=False):
        for kb in keyjar.return_issuer(fromID):
            keyjar.add_kb(toID, kb)
        return keyjar

    for f in (import_jwks, import_jwks_as_json, import_jwks_from_file, add_kb, issuer_keys,
              store_under_other_id):
        setattr(m, f.__name__, f)
    sys.modules["idpyoidc.key_import"] = m
    import idpyoidc
    idpyoidc.key_import = m


_install_key_import()


def _memo_private_keys():
    """Building an RSA private key costs 50 ms of consistency checks; the test keys are always the
    same ones."""
    import cryptojwt.jwk.rsa as m
    real, memo = m.rsa_construct_private, {}

    def construct(numbers):
        k = tuple(sorted(numbers.items()))
        if k not in memo:
            memo[k] = real(numbers)
        return memo[k]

    m.rsa_construct_private = construct


_memo_private_keys()
