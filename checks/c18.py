"""C18: entities in one process do not interfere.

Pairs of real entities built from the same specifications, all interleavings of what is done with the
two; afterwards each must look and behave exactly as had it been alone."""
import mc.env  # noqa
import copy
import itertools
import json

from mc.env import T0, Clock
from mc.fed import WORLD, fresh_world, jwks, key_conf, payload_of, sign
from mc.graph import Graph, eid
from mc.op import server_config
from mc.report import Check, Result, chunked, digest, jdump, parallel

MARK = "https://marks.example.com/1"
KEY = {"X": 0, "Y": 1, "A": 2, "B": 3, "L": 4, "S": 5, "C": 6}


class Fed(Graph):
    def __init__(self):
        super().__init__({"L": ["A"], "S": ["B"], "X": ["A"], "Y": ["B"]}, KEY)


def shared_spec():
    """What a program building several entities has lying around"""
    from fedservice.defaults import federation_endpoints
    from fedservice.defaults import federation_services
    return {
        "preference": {"organization_name": "org", "contacts": ["ops@example.com"]},
        "anchors": {eid("A"): jwks(KEY["A"])},
        "services": federation_services("entity_configuration", "entity_statement", "resolve", "list"),
        "endpoints": federation_endpoints("entity_configuration", "fetch", "list", "resolve"),
        "init_kwargs": {"function": {"trust_chain_collector": {"allowed_delta": 333}},
                        "endpoint": {"fetch": {"auth_signing_alg_values": ["ES256"]}},
                        "service": {}},
        "item_args": {"endpoint": {"list": {"client_authn_method": []}}},
        "tme": {"class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
            "trust_mark_specification": {MARK: {"lifetime": 600}},
            "endpoint": {n: {"path": n, "class": f"fedservice.trust_mark_entity.server.{n}.{c}", "kwargs": {}}
                         for n, c in [("trust_mark_list", "TrustMarkList"),
                                      ("trust_mark_status", "TrustMarkStatus")]}}},
        "subordinate": {eid("S"): {"jwks": jwks(KEY["S"]), "entity_types": ["openid_provider"]}},
        "policy": {eid("S"): {"metadata_policy": {"openid_provider": {"contacts": {"add": ["a"]}}}}},
        "rp": {"openid_relying_party": {
            "class": "fedservice.appclient.ClientEntity",
            "kwargs": {"config": {
                "client_type": "oidc", "redirect_uris": ["https://c.example.com/cb"],
                "preference": {"grant_types": ["authorization_code"], "response_types": ["code"],
                               "client_name": "x"},
                "key_conf": key_conf(11)}}}},
        "client": {"oauth_client": {
            "class": "fedservice.appclient.ClientEntity",
            "kwargs": {"client_type": "oauth2", "config": {
                "client_type": "oauth2", "redirect_uris": ["https://c.example.com/cb"],
                "preference": {"grant_types": ["authorization_code"], "response_types": ["code"],
                               "client_name": "x"},
                "key_conf": key_conf(11)}}}},
        "op": {"openid_provider": {"class": "fedservice.appserver.ServerEntity",
                                   "kwargs": {"config": server_config("openid_provider", 11),
                                              "entity_type": "openid_provider"}}},
        "as": {"oauth_authorization_server": {
            "class": "fedservice.appserver.ServerEntity",
            "kwargs": {"config": server_config("oauth_authorization_server", 11),
                       "entity_type": "oauth_authorization_server"}}},
    }


KINDS = ["default", "lists", "dicts", "kwargs", "anchor", "rp", "client", "op", "as", "tmi", "combo"]
PARTS = {"rp": "openid_relying_party", "client": "oauth_client", "op": "openid_provider",
         "as": "oauth_authorization_server"}


def build(kind, name, s):
    from fedservice.utils import make_federation_combo
    from fedservice.utils import make_federation_entity
    args = dict(key_config=key_conf(KEY[name]), authority_hints=[eid("A" if name == "X" else "B")],
                preference=s["preference"], trust_anchors=s["anchors"])
    # the two differ in this
    own = {"X": {"timeout": 5}, "Y": None}[name]
    if own:
        args["httpc_params"] = own
    if kind == "default":
        return make_federation_entity(eid(name), **args)
    if kind == "lists":
        return make_federation_entity(eid(name), endpoints=["entity_configuration", "fetch", "list"],
                                      services=["entity_configuration", "entity_statement", "list"],
                                      functions=["trust_chain_collector", "verifier", "policy",
                                                 "trust_mark_verifier"], **args)
    if kind == "dicts":
        return make_federation_entity(eid(name), endpoints=s["endpoints"], services=s["services"],
                                      subordinate=s["subordinate"], metadata_policy=s["policy"], **args)
    if kind == "kwargs":
        return make_federation_entity(eid(name), endpoints=s["endpoints"], services=s["services"],
                                      init_kwargs=s["init_kwargs"] if name == "X" else None,
                                      item_args=s["item_args"] if name == "X" else None, **args)
    if kind == "anchor":
        args.update(authority_hints=None, trust_anchors=None)
        return make_federation_entity(eid(name), endpoints=s["endpoints"], subordinate=s["subordinate"],
                                      **args)
    if kind == "tmi":
        return make_federation_entity(eid(name), endpoints=["entity_configuration"],
                                      trust_mark_entity=s["tme"], **args)
    if kind == "combo":
        return make_federation_combo(eid(name), services=["entity_configuration", "entity_statement"],
                                     endpoints=["entity_configuration", "fetch", "list"],
                                     subordinate=s["subordinate"], metadata_policy=s["policy"],
                                     init_kwargs=s["init_kwargs"] if name == "X" else None, **args)
    return make_federation_combo(eid(name), services=s["services"], endpoints=s["endpoints"],
                                 entity_type=s[kind], **args)


def fed_of(entity):
    return entity if entity.name == "federation_entity" else entity["federation_entity"]


def quiet(f, *a, **kw):
    try:
        return f(*a, **kw)
    except Exception as err:
        return "failed: " + type(err).__name__


def plain(x):
    return json.loads(json.dumps(x, sort_keys=True, default=lambda o: o.to_dict() if hasattr(o, "to_dict")
                                 else str(type(o).__name__)))


def serve(entity, endpoint, query):
    endp = fed_of(entity).server.endpoint.get(endpoint)
    if endp is None:
        return None
    req = endp.parse_request(dict(query)) if query else {}
    resp = endp.process_request(req)
    for k in ("response_msg", "response", "response_args"):
        if isinstance(resp, dict) and k in resp:
            resp = resp[k]
            break
    if isinstance(resp, str) and resp.startswith("ey"):
        p = payload_of(resp)
        p.pop("jti", None)
        return p
    return plain(resp)


def anchors_of(entity):
    f = fed_of(entity)
    return plain(f.trust_anchors)


OPS = {
    "trust": lambda e: fed_of(e).add_trust_anchor(eid("B"), jwks(KEY["B"])),
    "preferences": lambda e: e.get_preferences(),
    "metadata": lambda e: e.get_metadata(),
    "claim": lambda e: fed_of(e).context.claims.set_preference("organization_name", "changed"),
    "contact": lambda e: fed_of(e).context.claims.set_preference("contacts", ["other"]),
    "registration md": lambda e: fed_of(e).registration_metadata(),
    "subordinate": lambda e: fed_of(e).server.subordinate.__setitem__(eid("L"), {"jwks": jwks(KEY["L"])}),
    "policy": lambda e: fed_of(e).server.policy.__setitem__(
        eid("S"), {"metadata_policy": {"openid_provider": {"contacts": {"value": ["z"]}}}}),
    "serve": lambda e: [serve(e, "entity_configuration", {}), serve(e, "fetch", {"sub": eid("S")}),
                        serve(e, "list", {})],
    "chains": lambda e: fed_of(e).get_trust_chains(eid("L")),
    "key": lambda e: fed_of(e).keyjar.import_jwks(jwks(13), ""),
    "lifetime": lambda e: setattr(fed_of(e).context, "default_lifetime", 77),
    "mark": lambda e: fed_of(e).context.trust_marks.append("a.b.c"),
    "issue": lambda e: e.server.trust_mark_entity.create_trust_mark(MARK, eid("S")),
    "specify": lambda e: e.server.trust_mark_entity.trust_mark_specification.__setitem__(MARK + "x", {}),
    "register": lambda e: e[PARTS["op"]].context.cdb.__setitem__(eid("C"), {"client_name": "c"}),
    "rp claim": lambda e: [e[p].context.claims.set_preference("client_name", "changed")
                           for p in PARTS.values() if p in e.keys()],
}
# which operations make sense for whom
ONLY = {"issue": ["tmi"], "specify": ["tmi"], "register": ["op"], "rp claim": ["rp", "client", "op", "as"],
        "chains": [k for k in KINDS if k != "anchor"]}


def observe(e):
    """What an outsider and the owner can tell about an entity"""
    f = fed_of(e)
    res = {"anchors": anchors_of(e)}
    res["keys"] = {o: sorted(k.kid for k in f.keyjar.get_issuer_keys(o))
                   for o in (eid("A"), eid("B"), eid("X"), eid("Y"), eid("L"), eid("S"), "")
                   if quiet(lambda o=o: o in f.keyjar.owners()) is True}
    for name, q in (("entity_configuration", {}), ("fetch", {"sub": eid("S")}), ("fetch", {"sub": eid("L")}),
                    ("list", {})):
        res[f"{name} {q.get('sub', '')}"] = plain(quiet(serve, e, name, q))
    res["endpoints"] = {n: [p.full_path, plain(getattr(p, "auth_signing_alg_values", None)),
                            sorted(getattr(p, "client_authn_method", None) or [])]
                        for n, p in f.server.endpoint.items()}
    res["services"] = sorted(f.client.service.keys())
    res["delta"] = f.function.trust_chain_collector.allowed_delta
    res["http"] = plain([f.httpc_params, f.client.httpc_params])
    res["subordinates"] = plain(f.server.subordinate)
    res["policies"] = plain(f.server.policy)
    res["preference"] = plain(f.context.claims.prefer)
    res["metadata"] = plain(quiet(e.get_metadata))
    res["preferences"] = plain(quiet(e.get_preferences))
    for part in PARTS.values():
        if e is not f and part in e.keys():
            res[part] = [plain(e[part].httpc_params), plain(e[part].context.claims.prefer),
                         plain(quiet(e[part].get_metadata))]
            srv = getattr(e[part], "endpoint", None) or getattr(e[part], "_service", None) or {}
            res[part].append({n: getattr(x, "full_path", "") or "" for n, x in srv.items()})
            cdb = getattr(e[part].context, "cdb", None)
            res[part].append(sorted(cdb) if isinstance(cdb, dict) else None)
            info = getattr(e[part].context, "provider_info", None)
            res[part].append(plain(info) if info else None)
    if "trust_mark_status" in f.server.endpoint:
        res["issued"] = [quiet(serve, e, "trust_mark_status", {"sub": eid("S"), "trust_mark_id": MARK}),
                         quiet(serve, e, "trust_mark_list", {"trust_mark_id": MARK}),
                         sorted(f.server.trust_mark_entity.trust_mark_specification)]
    before = len(WORLD[0].log)
    for who in ("L", "S"):
        chains = quiet(f.get_trust_chains, eid(who))
        res["chains " + who] = chains if isinstance(chains, str) else \
            sorted([tc.anchor, plain(tc.metadata)] for tc in chains)
    res["fetched"] = sorted(WORLD[0].log[before:])
    return res


def defaults():
    import fedservice.defaults as d
    return plain({k: v for k, v in vars(d).items() if k.isupper() and isinstance(v, dict)})


def run(seq, kinds, spec):
    """seq: [(who, operation)], the first for each is 'build'. -> {who: observation}"""
    Clock.now = T0
    w = fresh_world()
    Fed().serve(w)
    ents = {}
    for who, op in seq:
        if op == "build":
            ents[who] = build(kinds[who], who, spec)
        else:
            quiet(OPS[op], ents[who])
    return {who: observe(e) for who, e in ents.items()}


_alone = {}


def alone(who, kind, ops):
    k = (who, kind, ops)
    if k not in _alone:
        _alone[k] = run([(who, op) for op in ("build",) + ops], {who: kind}, shared_spec())[who]
    return _alone[k]


def interleavings(a, b):
    n = len(a) + len(b)
    for where in itertools.combinations(range(n), len(a)):
        ia, ib = iter(a), iter(b)
        yield [next(ia) if i in where else next(ib) for i in range(n)]


def sweep(chunk):
    r = Result()
    for kx, ky, ox, oy in chunk:
        want = {"X": alone("X", kx, ox), "Y": alone("Y", ky, oy)}
        xs = [("X", op) for op in ("build",) + ox]
        ys = [("Y", op) for op in ("build",) + oy]
        for seq in interleavings(xs, ys):
            spec = shared_spec()
            before = plain(spec)
            got = run(seq, {"X": kx, "Y": ky}, spec)
            r.count("schedules")
            r.count("steps", len(seq))
            for who in "XY":
                r.state([who, got[who]])
                bad = [f for f in want[who] if got[who].get(f) != want[who][f]] if got[who] != want[who] else []
                if bad:
                    r.violation(f"{who} {kx}/{ky}: {bad[0]}",
                                f"{who}'s {bad} differ from when alone\nschedule {seq}\nalone "
                                f"{jdump(want[who][bad[0]])[:400]}\nnow {jdump(got[who].get(bad[0]))[:400]}",
                                [kx, ky, list(ox), list(oy), seq])
        r.sample({"X": [kx] + list(ox), "Y": [ky] + list(oy), "interleavings": "all"})
    return r


def op_seqs(kind, depth):
    al = [o for o in OPS if o not in ONLY or kind in ONLY[o]]
    return [t for n in range(depth + 1) for t in itertools.product(al, repeat=n)]


def main():
    c = Check("C18", "model_checking", assumptions=[
        "two entities; objects the program changes itself, behind an entity's back, are not judged",
        "client databases and trust mark databases in memory"])
    if c.replay:
        kx, ky, ox, oy, _ = c.replay["case"]
        r = sweep([(kx, ky, tuple(ox), tuple(oy))])
        c.finish(r, cov(c, r))
    cases = []
    for kx in KINDS:
        for ky in KINDS:
            same = kx == ky
            nx, ny = (2, 1) if c.thorough and same else (1, 1) if c.thorough or same else (1, 0)
            cases += [(kx, ky, ox, oy) for ox in op_seqs(kx, nx) for oy in op_seqs(ky, ny)]
    r = parallel(sweep, chunked(cases, 256 if c.thorough else 64))
    c.finish(r, cov(c, r))


def cov(c, r):
    return {"states": len(r.states), "transitions": r.counts["steps"],
            "traces_validated_against_impl": r.counts["schedules"],
            "rule": "pairs of 11 kinds of entities from the same specifications, all interleavings of building "
                    "them and of up to (thorough: 2+1, quick: 1+1) operations; reference: the same "
                    "operations on the entity alone",
            "kinds": KINDS, "operations": list(OPS), "complete": True}


if __name__ == "__main__":
    main()
