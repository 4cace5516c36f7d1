"""C21: a statement that is malformed, or asks for something its reader doesn't understand, costs
exactly the trust chains it is in; messages lacking what they must contain are refused."""
import mc.env  # noqa
import itertools
import json

from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, make_entity, payload_of, sign
from mc.graph import Graph, eid
from mc.report import Check, Result, chunked, parallel

from fedservice import message
from fedservice.entity.function import get_verified_trust_chains, verify_trust_chain
from idpyoidc.message import Message

KEY = {"L": 1, "A": 2, "B": 3, "C": 4, "T": 5}
HINTS = {"L": ["A", "B"], "A": ["C"], "B": ["T"], "C": ["T"]}
# the statements a trust chain consists of
CHAINS = {
    ("L", "A", "C", "T"): [("T", "C"), ("C", "A"), ("A", "L"), ("ec", "L")],
    ("L", "B", "T"): [("T", "B"), ("B", "L"), ("ec", "L")],
}
DOCS = [("T", "C"), ("C", "A"), ("A", "L"), ("T", "B"), ("B", "L"), ("ec", "L")]

ABOUT = {
    ("T", "C"): {"metadata_policy": {"federation_entity": {"contacts": {"add": ["t"]}}}},
    ("T", "B"): {"metadata_policy": {"federation_entity": {"contacts": {"add": ["t"]}}}},
    ("C", "A"): {"constraints": {"max_path_length": 2}},
    ("A", "L"): {"metadata_policy": {"federation_entity": {"contacts": {"add": ["a"]},
                                                           "organization_name": {"essential": True}}},
                 "metadata": {"federation_entity": {"homepage_uri": "https://h.example.com"}},
                 "constraints": {"max_path_length": 3, "naming_constraints": {
                     "permitted": ["https://.example.com"]}}},
    ("B", "L"): {},
}


class Twisted(Graph):
    """A graph where some documents deviate. twist: {document: function(payload)}"""
    twist = {}

    def _twisted(self, tag, token, signer):
        func = self.twist.get(tag)
        if not func:
            return token
        payload = payload_of(token)
        func(payload)
        return sign(payload, self.key[signer])

    def ec(self, n, fault=None):
        return self._twisted(("ec", n), super().ec(n, fault), n)

    def statement(self, n, sub, fault=None):
        return self._twisted((n, sub), super().statement(n, sub, fault), n)


def look(twist):
    """The trust chains found: path -> metadata"""
    Clock.reset()
    w = fresh_world()
    g = Twisted(HINTS, KEY, about=ABOUT)
    g.twist = twist
    g.serve(w)
    fe = make_entity("https://obs.example.org", 0, trust_anchors={eid("T"): jwks(KEY["T"])})
    names = {eid(n): n for n in KEY}
    got = {}
    chains = get_verified_trust_chains(fe, eid("L"))
    for tc in chains:
        got[tuple(names.get(i, i) for i in tc.iss_path)] = norm(tc.metadata)
    # each chain by itself, handed over
    alone = {}
    for path, docs in CHAINS.items():
        try:
            chain = [g.ec(d[1]) if d[0] == "ec" else g.statement(*d) for d in docs]
            alone[path] = bool(verify_trust_chain(fe, chain))
        except Exception:
            alone[path] = False
    return got, alone


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in sorted(x.items())}
    if isinstance(x, list):
        return sorted((norm(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    return x


BASE = {}
CASE = [None]     # what's being tried, for replay


def base():
    if not BASE:
        BASE.update(look({})[0])
    return BASE


def judge(res, name, twist, refused, free=(), own=False, invariant=None):
    """refused: paths that must not be found, free: not judged, all others must be as usual"""
    res.count("evaluations")
    try:
        got, alone = look(twist)
    except Exception as err:
        if own:      # it's about the entity itself, then an exception is as good as an empty list
            got, alone = {}, {}
        else:
            res.violation(f"crash:{name}", f"{name}: {err!r}", CASE[0])
            return
    res.states.add(f"{name}:{sorted(got)}")
    for path in CHAINS:
        if path in refused:
            if path in got or alone.get(path):
                res.violation(f"used:{name}", f"{name}: {'-'.join(path)} is used "
                              f"(looked for: {path in got}, handed over: {alone.get(path)})",
                              CASE[0])
                return
        elif path in free:
            if path in got and invariant and not invariant(got[path]):
                res.violation(f"policy:{name}", f"{name}: {'-'.join(path)} gives {got[path]}",
                              CASE[0])
                return
        elif got.get(path) != base()[path]:
            res.violation(f"lost:{name}", f"{name}: {'-'.join(path)} gives {got.get(path)}, should be "
                          f"{base()[path]}", CASE[0])
            return
        elif not alone[path]:
            res.violation(f"lost:{name}", f"{name}: {'-'.join(path)} handed over isn't accepted",
                          CASE[0])
            return
    for path in got:
        if path not in CHAINS:
            res.violation(f"bogus:{name}", f"{name}: {path}", CASE[0])


# --- extensions ---------------------------------------------------------------------------------

EXT = {"foo": "bar", "baz": {"a": [1]}, "allowed": 0, "none": False}
PRESENT = [(), ("foo",), ("baz",), ("foo", "baz"), ("allowed",), ("none",)]
CRIT = [None, ["foo"], ["baz"], ["foo", "baz"], ["baz", "foo", "more"], ["metadata"], ["exp", "foo"],
        ["foo", "jwks"], ["allowed"], ["none"], "foo"]


def ext_cases():
    for present, crit in itertools.product(PRESENT, CRIT):
        if crit is None and not present:
            continue
        yield present, crit


# of those named above, what everyone knows
STANDARD = {"metadata", "exp", "jwks", "add"}


def verdict(present, crit, known=()):
    """Must the statement be refused, used, or is that not judged (None): naming, as critical,
    something unknown that isn't there."""
    crit = set([crit] if isinstance(crit, str) else crit or []) - STANDARD - set(known or ())
    if crit & set(present):
        return "refuse"
    return "use" if not crit else None


def ext_verdict(present, crit, known=()):
    return verdict(present, crit, known)


def put_ext(case):
    present, crit = case

    def func(p):
        p.update({k: EXT[k] for k in present})
        if crit is not None:
            p["crit"] = crit
    return func


# (type, claim, operators the policy language doesn't define)
OPS = [("federation_entity", "contacts", {"regexp": "@"}),
       ("federation_entity", "logo_uri", {"regexp": "@"}),
       ("federation_entity", "contacts", {"regexp": "@", "intersects": ["x"]}),
       ("openid_provider", "contacts", {"regexp": "@"}),
       ("something", "contacts", {"regexp": "@"}),
       None]
PCRIT = [None, ["regexp"], ["intersects"], ["add"], ["add", "regexp"], ["regexp", "other"],
         ["other"], "regexp"]


def pol_cases():
    for ops, crit in itertools.product(OPS, PCRIT):
        if ops or crit:
            yield ops, crit


def pol_verdict(ops, crit, known=()):
    return verdict(ops[2] if ops else (), crit, known)


def put_pol(case):
    ops, crit = case

    def func(p):
        if ops:
            typ, claim, extra = ops
            p.setdefault("metadata_policy", {}).setdefault(typ, {}).setdefault(claim, {}).update(extra)
        if crit is not None:
            p["policy_language_crit"] = crit
    return func


def both(*funcs):
    def func(p):
        for f in funcs:
            f(p)
    return func


def through(*docs):
    return {path for path, ds in CHAINS.items() if set(ds) & set(docs)}


def work_ext(arg):
    res = Result()
    for kind, doc, case, doc2, case2 in arg:
        CASE[0] = ["ext", [[kind, doc, case, doc2, case2]]]
        twist, refused, free = {}, set(), set()
        for d, (k, c) in ((doc, (kind[0], case)), (doc2, (kind[-1], case2))):
            if d is None:
                continue
            func = put_ext(c) if k == "e" else put_pol(c)
            twist[d] = both(twist[d], func) if d in twist else func
            must = (ext_verdict if k == "e" else pol_verdict)(*c)
            if must == "refuse":
                refused |= through(d)
            elif must is None:
                free |= through(d)
        judge(res, f"{kind} {doc} {case} {doc2} {case2}", twist, refused, free - refused)
    return res


# --- malformed ----------------------------------------------------------------------------------

JUNK = [None, True, 0, -1, 1.5, "", "x", [], ["x"], [1], [None], [[]], [{}], {}, {"x": 1},
        {"x": {"x": "x"}}, {"x": {"x": {"x": []}}}, "absent"]
OPERATORS = ["subset_of", "superset_of", "one_of", "add", "value", "default", "essential", "regexp"]
ST_PATHS = [["iss"], ["sub"], ["exp"], ["jwks"], ["jwks", "keys"], ["iat"], ["metadata"],
            ["metadata", "federation_entity"], ["metadata", "openid_provider"], ["metadata_policy"],
            ["metadata_policy", "federation_entity"], ["metadata_policy", "openid_provider"],
            ["metadata_policy", "federation_entity", "contacts"], ["constraints"],
            ["constraints", "max_path_length"], ["constraints", "naming_constraints"],
            ["constraints", "naming_constraints", "permitted"],
            ["constraints", "naming_constraints", "excluded"], ["authority_hints"], ["trust_marks"],
            ["crit"], ["policy_language_crit"], ["aud"], ["jti"], ["nbf"]
            ] + [["metadata_policy", "federation_entity", "contacts", o] for o in OPERATORS]
EC_PATHS = [["iss"], ["sub"], ["exp"], ["jwks"], ["jwks", "keys"], ["iat"], ["metadata"],
            ["metadata", "federation_entity"], ["metadata", "federation_entity", "contacts"],
            ["metadata", "federation_entity", "federation_fetch_endpoint"], ["metadata_policy"],
            ["constraints"], ["authority_hints"], ["trust_marks"], ["crit"]]
# without these being right there's nothing to rely on
MUST = {"iss", "sub", "exp", "jwks"}
# the documents that only are needed to get at others
EC_DOCS = [("ec", "A"), ("ec", "B"), ("ec", "C")]


def put_junk(path, val):
    def func(p):
        for k in path[:-1]:
            if not isinstance(p.get(k), dict):
                p[k] = {}
            p = p[k]
        if val == "absent":
            p.pop(path[-1], None)
        else:
            p[path[-1]] = val
    return func


def behind(doc):
    """The chains a document is needed for"""
    if doc[0] == "ec" and doc != ("ec", "L"):
        return {path for path in CHAINS if doc[1] in path}
    return through(doc)


def work_junk(arg):
    res = Result()
    for junk in arg:
        CASE[0] = ["junk", [junk]]
        twist, refused, free = {}, set(), set()
        for doc, path, val in junk:
            func = put_junk(path, val)
            twist[doc] = both(twist[doc], func) if doc in twist else func
            hit = behind(doc)
            if path[0] in MUST and (doc[0] != "ec" or doc == ("ec", "L")):
                refused |= hit
            else:
                free |= hit
        # what the trust anchor requires, properly, is required however the others express themselves
        touched = {d[0] for d, _, _ in junk}

        def kept(metadata):
            if "T" in touched or not isinstance(metadata.get("federation_entity"), dict):
                return True
            return "t" in (metadata["federation_entity"].get("contacts") or [])

        judge(res, f"junk {junk}", twist, refused, free - refused,
              own=any(d == ("ec", "L") for d, _, _ in junk), invariant=kept)
    return res


# --- messages -----------------------------------------------------------------------------------

S, N, B, LS, D = "string", "number", "boolean", "list of strings", "object"
URL = "https://x.example.com/y"
JWKS = {"keys": [{"kty": "RSA", "n": "abc", "e": "AQAB"}]}
JWT = {"iss": S, "sub": S, "exp": N, "iat": N, "jti": S}
RP = {"redirect_uris": LS}
OP = {"issuer": S, "authorization_endpoint": S, "jwks_uri": S, "response_types_supported": LS,
      "subject_types_supported": LS, "id_token_signing_alg_values_supported": LS}
VALUE = {S: "abc", N: 12345, B: True, LS: ["a", "b"], D: {"a": {"b": ["c"]}}}
SPECIAL = {"issuer": "https://x.example.com", "redirect_uris": ["https://x.example.com/cb"],
           "jwks": JWKS,
           "id_token_signing_alg_values_supported": ["RS256", "ES256"],
           "exp": int(T0) + 3600, "iat": int(T0) - 10, "client_secret_expires_at": 0}
for _k in ("authorization_endpoint", "token_endpoint", "jwks_uri", "registration_endpoint",
           "userinfo_endpoint", "federation_registration_endpoint", "logo_uri", "signed_jwks_uri",
           "policy_uri", "homepage_uri", "federation_fetch_endpoint", "federation_list_endpoint"):
    SPECIAL[_k] = URL

# class: (what must be there, what may be there)
MESSAGES = {
    "EntityStatement": ({"iss": S, "sub": S, "exp": N, "iat": N},
                        {"jwks": D, "jti": S, "authority_hints": LS, "crit": LS,
                         "policy_language_crit": LS, "trust_marks": LS, "trust_anchor_id": S}),
    "TrustMark": ({"iss": S, "sub": S, "iat": N, "id": S},
                  {"logo_uri": S, "exp": N, "ref": S, "delegation": S}),
    "ResolveRequest": ({"sub": S, "anchor": S}, {"type": S}),
    "ResolveResponse": ({"iss": S, "sub": S, "metadata": D}, {"trust_chain": LS, "exp": N}),
    "ListRequest": ({}, {"entity_type": S, "trust_marked": B, "trust_mark_id": S,
                         "intermediate": B}),
    "ListResponse": ({"entity_id": LS}, {}),
    "TrustMarkRequest": ({"trust_mark_id": S, "sub": S}, {}),
    "WhoRequest": ({}, {"entity_type": S, "credential_type": S, "trust_mark_id": S}),
    "WhoResponse": ({"entities_to_use": LS}, {}),
    "HistoricalKeysResponse": ({"iss": S, "iat": N, "jwks": D}, {}),
    "FederationEntity": ({"federation_fetch_endpoint": S},
                         {"federation_list_endpoint": S, "federation_resolve_endpoint": S,
                          "federation_trust_mark_status_endpoint": S,
                          "federation_trust_mark_list_endpoint": S,
                          "federation_trust_mark_endpoint": S,
                          "federation_historical_keys_endpoint": S, "name": S, "contacts": LS,
                          "policy_url": S, "homepage_uri": S, "organization_name": S,
                          "trust_mark_owners": D, "trust_mark_issuers": D}),
    "NamingConstraints": ({}, {"permitted": LS, "excluded": LS}),
    "Constraints": ({}, {"max_path_length": N, "naming_constraints": D}),
    "AuthorizationServerMetadata": ({"issuer": S},
                                    {"authorization_endpoint": S, "token_endpoint": S,
                                     "jwks_uri": S, "scopes_supported": LS,
                                     "response_types_supported": LS, "grant_types_supported": LS,
                                     "client_registration_types_supported": LS,
                                     "federation_registration_endpoint": S,
                                     "request_authentication_methods_supported": LS}),
    "OauthClientInformationResponse": ({"client_id": S},
                                       {"redirect_uris": LS, "client_id_issued_at": N,
                                        "client_secret_expires_at": N, "organization_name": S,
                                        "signed_jwks_uri": S, "contacts": LS, "scope": None}),
    "OAuthProtectedResourceMetadata": ({"resource": S},
                                       {"authorization_servers": LS, "jwks_uri": S,
                                        "scopes_provided": LS, "organization_name": S}),
    "OIDCRPMetadata": (dict(RP, client_registration_types=LS), {"contacts": LS, "jwks_uri": S}),
    "OIDCRPRegistrationResponse": (dict(RP, client_id=S, client_registration_types=LS),
                                   {"contacts": LS}),
    "RegistrationRequest": (dict(RP, client_registration_types=LS),
                            {"organization_name": S, "signed_jwks_uri": S}),
    "RegistrationResponse": (dict(RP, client_id=S, client_registration_types=LS),
                             {"client_id_issued_at": N, "organization_name": S}),
    "OPMetadata": (dict({k: v for k, v in OP.items() if k != "jwks_uri"},
                        client_registration_types_supported=LS),
                   {"federation_registration_endpoint": S, "organization_name": S, "contacts": LS,
                    "logo_uri": S, "policy_uri": S, "homepage_uri": S, "jwks": D,
                    "request_authentication_signing_alg_values_supported": LS}),
    "ProviderConfigurationResponse": (dict(OP, client_registration_types_supported=LS),
                                      {"federation_registration_endpoint": S,
                                       "organization_name": S, "signed_jwks_uri": S}),
    "FedASConfigurationResponse": ({"issuer": S, "response_types_supported": LS},
                                   {"organization_name": S, "contacts": LS, "logo_uri": S,
                                        "policy_uri": S, "jwks": D, "signed_jwks_uri": S}),
    "TrustMarkIssuerMetadata": ({"status_endpoint": S}, {}),
}
# what can't be taken for a value of the type, by any reading (the message library takes anything
# for an object, and an object for a list of strings)
WRONG = {S: [{"a": "b"}, ["a", "b"], [1], True], N: ["x", {"a": 1}, [1, 2], ["x"]],
         LS: [1, [1], [{"a": 1}], True], D: [], B: ["x", ["x"], {"a": 1}]}


def value(name, typ):
    if name in SPECIAL:
        return SPECIAL[name]
    return VALUE[typ]


def build(cls, form, content):
    """A received message, verified"""
    if form == "dict":
        m = cls(**content)
    elif form == "json":
        m = cls().from_json(json.dumps(content))
    else:
        m = cls().from_jwt(sign(content, 1), verify=False)
    m.verify()
    return m


def refuses(res, name, cls, form, content):
    res.count("evaluations")
    res.count("messages")
    res.states.add(name)
    try:
        m = build(cls, form, content)
    except Exception:
        return
    res.violation(f"accepted:{name}", f"{name}: accepted as {m._dict}", CASE[0])


def within(want, got):
    """Default values may have been added"""
    if isinstance(want, dict):
        return isinstance(got, dict) and all(k in got and within(v, got[k]) for k, v in want.items())
    return want == got


def accepts(res, name, cls, form, content):
    res.count("evaluations")
    res.count("messages")
    res.states.add(name)
    try:
        m = build(cls, form, content)
        back = json.loads(m.to_json())
    except Exception as err:
        res.violation(f"refused:{name}", f"{name}: {err!r}", CASE[0])
        return
    lost = {k: (v, back.get(k)) for k, v in content.items() if not within(v, back.get(k))}
    if lost:
        res.violation(f"changed:{name}", f"{name}: {lost}", CASE[0])


def forms(cls):
    return ["dict", "json"]


def full(spec):
    return {k: value(k, t) for k, t in spec.items() if t}


def work_message(names):
    Clock.reset()
    res = Result()
    for cname in names:
        CASE[0] = ["message", [cname]]
        cls = getattr(message, cname)
        req, opt = MESSAGES[cname]
        minimum = full(req)
        everything = dict(minimum, **full(opt))
        for form in forms(cls):
            tag = f"{cname} {form}"
            accepts(res, f"{tag} minimal", cls, form, minimum)
            accepts(res, f"{tag} full", cls, form, everything)
            for k, t in list(req.items()) + list(opt.items()):
                if t is None:
                    continue
                accepts(res, f"{tag} with {k}", cls, form, dict(minimum, **{k: value(k, t)}))
                accepts(res, f"{tag} unknown+{k}", cls, form,
                        dict(minimum, **{k: value(k, t), "unknown": {"x": [1]}, "x_y": "z"})
                        if k not in ("crit", "policy_language_crit") else minimum)
                for wrong in WRONG[t]:
                    refuses(res, f"{tag} {k}={wrong}", cls, form, dict(minimum, **{k: wrong}))
                    refuses(res, f"{tag} full {k}={wrong}", cls, form,
                            dict(everything, **{k: wrong}))
            for k in req:
                for start, what in ((minimum, "minimal"), (everything, "full")):
                    refuses(res, f"{tag} {what} without {k}", cls, form,
                            {a: b for a, b in start.items() if a != k})
                    if req[k] in (S, LS):
                        refuses(res, f"{tag} {what} empty {k}", cls, form,
                                dict(start, **{k: "" if req[k] == S else []}))
    return res


def work_special(_):
    """The classes with rules of their own"""
    CASE[0] = ["special", None]
    Clock.reset()
    res = Result()
    # status request: a trust mark, or subject and trust mark id
    parts = {"sub": "https://s", "trust_mark_id": "https://tm", "iat": 12345, "trust_mark": "ey.a.b"}
    for n in range(5):
        for keys in itertools.combinations(parts, n):
            content = {k: parts[k] for k in keys}
            ok = "trust_mark" in keys or ("sub" in keys and "trust_mark_id" in keys)
            (accepts if ok else refuses)(res, f"TrustMarkStatusRequest {keys}",
                                         message.TrustMarkStatusRequest, "dict", content)
    # a client secret comes with its expiration
    for secret, exp in itertools.product([None, "hemlig"], [None, 0, 12345]):
        content = {"client_id": "c"}
        if secret:
            content["client_secret"] = secret
        if exp is not None:
            content["client_secret_expires_at"] = exp
        ok = not secret or exp is not None
        (accepts if ok else refuses)(res, f"OauthClientInformationResponse {secret} {exp}",
                                     message.OauthClientInformationResponse, "json", content)
    # entity statements, by themselves, with extensions known to the one verifying
    stmt = {"iss": "https://a", "sub": "https://b", "exp": int(T0) + 60, "iat": int(T0) - 60}
    for (present, crit), known in itertools.product(
            ext_cases(), [None, [], ["foo"], ["baz"], ["foo", "baz"], ["other"]]):
        must = ext_verdict(present, crit, known)
        content = dict(stmt, **{k: EXT[k] for k in present})
        if crit is not None:
            content["crit"] = crit
        res.count("evaluations")
        name = f"EntityStatement {present} {crit} known={known}"
        res.states.add(name)
        try:
            message.EntityStatement(**content).verify(
                **({} if known is None else {"known_extensions": known}))
            got = True
        except Exception:
            got = False
        if must and got != (must == "use"):
            res.violation(f"crit:{name}", f"{name}: accepted={got}", CASE[0])
    for (ops, crit), known in itertools.product(
            pol_cases(), [None, [], ["regexp"], ["intersects"], ["intersects", "regexp"], ["x"]]):
        must = pol_verdict(ops, crit, known)
        content = dict(stmt)
        put_pol((ops, crit))(content)
        res.count("evaluations")
        name = f"EntityStatement policy {ops} {crit} known={known}"
        res.states.add(name)
        try:
            message.EntityStatement(**content).verify(
                **({} if known is None else {"known_policy_extensions": known}))
            got = True
        except Exception:
            got = False
        if must and got != (must == "use"):
            res.violation(f"pcrit:{name}", f"{name}: accepted={got}", CASE[0])
    # times
    for cname, extra in (("EntityStatement", {}), ("TrustMark", {"id": "https://tm"})):
        for exp, iat in itertools.product([-3600, -1, 60, 3600], [-3600, -1, 30, 3600]):
            content = dict(stmt, exp=int(T0) + exp, iat=int(T0) + iat, **extra)
            ok = exp > 0 and iat < 0
            (accepts if ok else refuses)(res, f"{cname} exp={exp} iat={iat}",
                                         getattr(message, cname), "dict", content)
    # trust marks: about the one expected
    for sub, whom in itertools.product(["https://a", "https://a/", "https://b"],
                                       [None, "https://a", "https://b"]):
        res.count("evaluations")
        name = f"TrustMark sub={sub} entity_id={whom}"
        res.states.add(name)
        try:
            message.TrustMark(**dict(stmt, sub=sub, id="https://tm")).verify(
                **({} if whom is None else {"entity_id": whom}))
            got = True
        except Exception:
            got = False
        if got != (whom in (None, sub)):
            res.violation(f"subject:{name}", f"{name}: accepted={got}", CASE[0])
    # metadata: each entity type is read as what it is
    for typ, cname in (("openid_relying_party", "OIDCRPMetadata"), ("openid_provider", "OPMetadata"),
                       ("oauth_authorization_server", "AuthorizationServerMetadata"),
                       ("federation_entity", "FederationEntity")):
        req, opt = MESSAGES[cname]
        content = dict(full(req), **full(opt))
        for outer in ("EntityStatement", "ResolveResponse"):
            accepts(res, f"{outer} metadata {typ}", getattr(message, outer), "json",
                    dict(stmt, metadata={typ: content, "unknown_type": {"a": "b"}}))
            for k, t in req.items():
                for wrong in WRONG[t]:
                    refuses(res, f"{outer} metadata {typ} {k}={wrong}", getattr(message, outer),
                            "json", dict(stmt, metadata={typ: dict(content, **{k: wrong})}))
    return res


def work(arg):
    return {"ext": work_ext, "junk": work_junk, "message": work_message,
            "special": work_special}[arg[0]](arg[1])


def tuples(x):
    return tuple(tuples(v) for v in x) if isinstance(x, list) else x


def revive(case):
    """What JSON has made lists of"""
    kind, arg = case
    if kind == "ext":
        return kind, [(k, tuples(d), (tuples(c[0]), c[1]), tuples(d2), c2 and (tuples(c2[0]), c2[1]))
                      for k, d, c, d2, c2 in arg]
    if kind == "junk":
        return kind, [[(tuples(d), path, v) for d, path, v in junk] for junk in arg]
    return kind, arg


def cases(thorough):
    for doc in DOCS:
        for c in ext_cases():
            yield "ext", ("e", doc, c, None, None)
        if doc[0] != "ec":
            for c in pol_cases():
                yield "ext", ("p", doc, c, None, None)
    few_e = [(("foo",), ["foo"]), (("foo",), None), (("foo",), ["baz"]), ((), ["foo"])]
    few_p = [(OPS[0], ["regexp"]), (OPS[0], None), (OPS[0], ["other"]), (None, ["regexp"])]
    for d1, d2 in itertools.product(DOCS, DOCS):
        todo = []
        if d1 < d2:
            todo += [("ee", d1, a, d2, b) for a in few_e for b in few_e]
            if d1[0] != "ec" and d2[0] != "ec":
                todo += [("pp", d1, a, d2, b) for a in few_p for b in few_p]
        if d2[0] != "ec":
            todo += [("ep", d1, a, d2, b) for a in few_e for b in few_p]
        for c in todo:
            yield "ext", c
    for doc in DOCS + EC_DOCS:
        for path in (EC_PATHS if doc[0] == "ec" else ST_PATHS):
            for v in JUNK:
                yield "junk", [(doc, path, v)]
    if thorough:
        small = [None, 0, "x", ["x"], [[]], {"x": 1}]
        sites = [(doc, path) for doc in [("C", "A"), ("A", "L"), ("B", "L")] for path in ST_PATHS]
        for a, b in itertools.combinations(sites, 2):
            if a[0] != b[0] or a[1] != b[1][:len(a[1])]:
                for v, v2 in itertools.product(small, small):
                    yield "junk", [a + (v,), b + (v2,)]


def main():
    chk = Check("C21", "exploration", [
        "HTTP below requests is replaced; the statements are signed by the harness",
        "whether a malformed metadata policy, metadata or constraint is refused or ignored is not "
        "judged, only that nothing else is affected by it",
        "the message library's readings (one string for a list of strings, numbers given as "
        "strings, an empty value for an absent one) are accepted"])
    if chk.replay:
        res = work(revive(chk.replay["case"]))
        print(res.violations[:1] or "no violation")
        raise SystemExit(1 if res.violations else 0)
    todo = list(cases(chk.thorough))
    jobs = []
    for kind in ("ext", "junk"):
        jobs += [(kind, c) for c in chunked([c for k, c in todo if k == kind], 96)]
    jobs += [("message", [m]) for m in MESSAGES] + [("special", None)]
    res = parallel(work, jobs)
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": f"two trust chains of two and three hops: each of their {len(DOCS)} documents with every "
                "combination of extensions, critical ones and policy operators, pairs of documents, and "
                f"each claim of these and {len(EC_DOCS)} further configurations replaced by {len(JUNK)} "
                f"values of other types; {len(MESSAGES)} message classes with every claim missing or of "
                "another type; on the real collector, verifier and messages",
        "documents with deviations": len(todo), "messages": res.counts["messages"],
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
