"""Servers and clients (combos of a federation entity and an OpenID/OAuth2 one) with fixed keys."""
import mc.env  # noqa
import copy

from mc.fed import jwks, key_conf

CRYPT = {"kwargs": {"keys": {"key_defs": [
    {"type": "OCT", "use": ["enc"], "kid": "password"},
    {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}

AUTHZ_KW = {
    "response_types_supported": ["code", "id_token", "code id_token", "none"],
    "response_modes_supported": ["query", "fragment", "form_post"],
    "claims_parameter_supported": True, "request_parameter_supported": True,
    "request_uri_parameter_supported": True,
    "client_registration_types_supported": ["automatic", "explicit"],
}


def _endpoint(path, cls, **kw):
    return {"path": path, "class": cls, "kwargs": kw}


def server_config(kind, key, **more):
    app = f"fedservice.appserver.{'oidc' if kind == 'openid_provider' else 'oauth2'}"
    endp = {
        "authorization": _endpoint("authorization", f"{app}.authorization.Authorization",
                                   **copy.deepcopy(AUTHZ_KW)),
        "registration": _endpoint("registration", f"{app}.registration.Registration"),
    }
    if kind != "openid_provider":
        endp["pushed_authorization"] = _endpoint(
            "pushed_authorization", f"{app}.pushed_authorization.PushedAuthorization",
            client_authn_method={"private_key_jwt": {
                "class": "idpyoidc.server.client_authn.PrivateKeyJWT"}})
    handlers = {
        "code": {"lifetime": 600, "kwargs": {"crypt_conf": CRYPT}},
        "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}},
        "jwks_def": {"read_only": False, "key_defs": [
            {"type": "oct", "bytes": "24", "use": ["enc"], "kid": "code"}]},
    }
    conf = {
        "server_type": "oidc" if kind == "openid_provider" else "oauth2",
        "preference": {"grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
                       "subject_types_supported": ["public", "pairwise"]},
        "token_handler_args": handlers, "endpoint": endp,
        "key_conf": key_conf(key), "template_dir": "template",
        "session_params": {"encrypter": copy.deepcopy(CRYPT)},
        "httpc_params": {"timeout": 1},
    }
    conf.update(more)
    return conf


def make_server(kind, entity_id, key, anchors, protocol_key=None, **more):
    """kind: openid_provider or oauth_authorization_server; anchors: {entity id: key number}"""
    from fedservice.utils import make_federation_combo
    return make_federation_combo(
        entity_id, key_config=key_conf(key), authority_hints=[],
        trust_anchors={a: jwks(k) for a, k in anchors.items()},
        preference={"organization_name": entity_id},
        endpoints=["entity_configuration"],
        services=["entity_configuration", "entity_statement"],
        entity_type={kind: {
            "class": "fedservice.appserver.ServerEntity",
            "kwargs": {"config": server_config(kind, protocol_key or key, **more),
                       "entity_type": kind}}})
