"""C29: entities are put together from precisely what their specification says.

All forms of specifying services, endpoints and functions, singly with all ways to give them arguments and in
combination, and all combinations of what else an entity can be given, against a reading of the specification."""
import mc.env  # noqa
import itertools
import json

from mc.env import Clock
from mc.fed import PUB, jwks, key_conf, payload_of, sign
from mc.report import Check, Result, chunked, digest, parallel

SRV, END, FUN = "fedservice.entity.client.", "fedservice.entity.server.", "fedservice.entity.function."
TME = "fedservice.trust_mark_entity.server."
CLASS = {
    "service": {"entity_configuration": SRV + "entity_configuration.EntityConfiguration",
                "entity_statement": SRV + "entity_statement.EntityStatement", "resolve": SRV + "resolve.Resolve",
                "list": SRV + "list.List", "trust_mark": SRV + "trust_mark.TrustMark",
                "trust_mark_list": SRV + "trust_mark_list.TrustMarkList",
                "trust_mark_status": SRV + "trust_mark_status.TrustMarkStatus"},
    "endpoint": {"entity_configuration": END + "entity_configuration.EntityConfiguration", "fetch": END + "fetch.Fetch",
                 "list": END + "list.List", "resolve": END + "resolve.Resolve",
                 "trust_mark": TME + "trust_mark.TrustMark", "trust_mark_list": TME + "trust_mark_list.TrustMarkList",
                 "trust_mark_status": TME + "trust_mark_status.TrustMarkStatus", "who": END + "who.Who"},
    "function": {"trust_chain_collector": FUN + "trust_chain_collector.TrustChainCollector",
                 "verifier": FUN + "verifier.TrustChainVerifier", "policy": FUN + "policy.TrustChainPolicy",
                 "trust_mark_verifier": FUN + "trust_mark_verifier.TrustMarkVerifier"},
}
DEFAULT = {"service": ["entity_configuration", "entity_statement", "resolve", "list"],
           "endpoint": ["entity_configuration", "fetch", "list"],
           "function": ["trust_chain_collector", "verifier", "policy", "trust_mark_verifier"]}
COLLECTOR = {"trust_anchors": {}, "allowed_delta": 600}
PUBLISHED = {n: f"federation_{n}_endpoint" for n in CLASS["endpoint"] if n not in ("who", "entity_configuration")}
PUBLISHED.update(who="sunet_who_endpoint", own="own_endpoint")
OWN = {"service": {"own": {"class": "mc.own.OwnService", "kwargs": {"a": 1, "b": [2]}}},
       "endpoint": {"own": {"class": "mc.own.OwnEndpoint", "path": "o/w/n", "kwargs": {"a": 1, "b": [2]}}},
       "function": {"verifier": {"class": "mc.own.OwnVerifier", "kwargs": {"a": 1, "b": [2]}},
                    "own": {"class": "mc.own.OwnFunction", "kwargs": {"c": 3}}}}
INIT = {"own": {"b": "init", "d": 4}, "trust_chain_collector": {"allowed_delta": 7},
        "list": {"client_authn_method": ["private_key_jwt"]}, "resolve": {"x": 1}, "nobody": {"b": 1}}
ITEM = {"own": {"b": "item", "e": 5}, "trust_chain_collector": {"allowed_delta": 9},
        "fetch": {"client_authn_method": ["client_secret_basic"]}, "resolve": {"y": 2}, "nobody": {"e": 1}}


def forms(kind):
    names = list(CLASS[kind])
    yield "default", None
    yield "none", []
    for n in range(1, len(names) + 1):
        for sub in itertools.combinations(names, n):
            yield "names", list(sub)
    yield "own", dict(OWN[kind])
    some = {n: {"class": CLASS[kind][n], "kwargs": dict(COLLECTOR) if n == "trust_chain_collector" else {}}
            for n in names[:2]}
    if kind == "endpoint":
        some[names[0]]["path"] = ".well-known/openid-federation"
        some[names[1]]["path"] = "else/where"
    yield "dict", some
    yield "both", dict(OWN[kind], **some)
    if kind != "function":
        yield "mixed", [names[0], dict(OWN[kind]), names[2]]
        over = dict(some)[names[1]]
        yield "over", [names[1], {names[1]: dict(over)}, names[3]]


def path(name):
    return ".well-known/openid-federation" if name == "entity_configuration" else name


def wanted(kind, form, init, item):
    """{name: (class, kwargs, path)}"""
    if form is None:
        form = DEFAULT[kind]
    res = {}
    for part in ([form] if isinstance(form, dict) else form):
        if isinstance(part, dict):
            for n, spec in part.items():
                res[n] = (spec["class"], dict(spec["kwargs"]), spec.get("path"))
        elif part not in res:
            res[part] = (CLASS[kind][part], dict(COLLECTOR) if part == "trust_chain_collector" else {}, path(part))
    for args in (init, item):
        for n, kw in (args or {}).items():
            if n in res:
                res[n][1].update(kw)
    return res


BUILD = ["make_federation_entity", "make_federation_combo"]


def applicable(kind, args):
    # Arguments that the class in question takes
    if kind != "endpoint":
        return {k: v for k, v in args.items() if k not in ("list", "fetch")}
    return args


def structure(res, case):
    from fedservice import utils
    Clock.reset()
    specs = {k: dict(forms_by_key(k))[case[k]] for k in CLASS}
    init = {k: applicable(k, INIT) for k in case["init"]} or None
    item = {k: applicable(k, ITEM) for k in case["item"]} or None
    args = {"key_config": key_conf(1), "preference": {"organization_name": "x"}, "init_kwargs": init, "item_args": item,
            "services": specs["service"], "endpoints": specs["endpoint"], "functions": specs["function"]}
    before = json.dumps(args)
    fe = getattr(utils, BUILD[case["by"]])(case["id"], **args)
    res.count("evaluations")
    if json.dumps(args) != before:
        return "the specification was changed"
    for kind, unit, attr in (("service", fe.client, "service"), ("endpoint", fe.server, "endpoint"),
                             ("function", fe.function, None)):
        want = wanted(kind, specs[kind], (init or {}).get(kind), (item or {}).get(kind))
        if unit is None:
            if want:
                return f"no {kind}s, should be {sorted(want)}"
            continue
        got = dict(getattr(unit, attr).items()) if attr else {
            k: v for k, v in vars(unit).items() if type(v).__module__.startswith((FUN[:-1], "mc.own"))}
        if set(got) != set(want):
            return f"{kind}s {sorted(got)}, should be {sorted(want)}"
        for n, (cls, kw, where) in want.items():
            if f"{type(got[n]).__module__}.{type(got[n]).__name__}" != cls:
                return f"{kind} {n} is a {type(got[n])}"
            if hasattr(got[n], "given") and got[n].given != kw:
                return f"{kind} {n} made with {got[n].given}, should be {kw}"
            if n == "trust_chain_collector" and got[n].allowed_delta != kw["allowed_delta"]:
                return f"{kind} {n} with {got[n].allowed_delta}, should be {kw}"
            if kind == "service" and any(got[n].conf.get(k) != v for k, v in kw.items()):
                return f"{kind} {n} has {got[n].conf}, should be {kw}"
            if kind == "service" and {"a", "b", "c", "d", "e", "x", "y", "client_authn_method"} & set(got[n].conf) - set(kw):
                return f"{kind} {n} has {got[n].conf}, should be {kw}"
            if kind == "endpoint" and got[n].full_path != case["id"].rstrip("/") + "/" + where:
                return f"{kind} {n} at {got[n].full_path}"
            if kind == "service" and fe.client.get_service(n) is not got[n]:
                return f"{n} isn't what's got when asked for"
            if kind == "endpoint" and fe.get_endpoint(n) is not got[n]:
                return f"{n} isn't what's got when asked for"
        if kind == "endpoint":
            md = {"organization_name": "x"}
            for n, (cls, kw, where) in want.items():
                if n in PUBLISHED:
                    md[PUBLISHED[n]] = case["id"].rstrip("/") + "/" + where
                    how = kw.get("client_authn_method") or (["none"] if n.startswith("trust_mark") else None)
                    if how:
                        md[PUBLISHED[n] + "_auth_methods"] = how
            if "entity_configuration" in want:
                p = payload_of(got["entity_configuration"].process_request({})["response"])
                if p["metadata"] != {"federation_entity": md} or p["iss"] != case["id"]:
                    return f"says {p['iss']} {p['metadata']}, should be {md}"
            if fe.get_metadata() != {"federation_entity": md}:
                return f"metadata {fe.get_metadata()}, should be {md}"
    return None


FORMS = {}


def forms_by_key(kind):
    if kind not in FORMS:
        FORMS[kind] = [(f"{i} {n}", f) for i, (n, f) in enumerate(forms(kind))]
    return [(k, json.loads(json.dumps(f))) for k, f in FORMS[kind]]


# ---------------------------------------------------------------- what else an entity can be given
A, B, S, T = ["https://%s.example.com" % x for x in ("a", "b", "s", "t")]
MARK = sign({"iss": B, "sub": T, "id": "https://m.example.com", "iat": 1}, 5)
ANCHORS = [None, {A: jwks(2)}, {A: jwks(2), B: jwks(3, 4)}, "class"]
SUBS = [None, {S: {"jwks": jwks(5), "entity_types": ["oauth_client"]}},
        {S: {"jwks": jwks(5)}, B: {"jwks": jwks(3), "intermediate": True}}, "class"]
POLICY = [None, {S: {"metadata_policy": {"oauth_client": {"contacts": {"add": ["x"]}}}}},
          {B: {"metadata_policy": {"oauth_client": {"scope": {"subset_of": ["a"]}}}}},
          {"oauth_client": {"metadata_policy": {"contacts": {"add": ["y"]}}}}]
HINTS = [None, [], [A], [B, A], "class"]
MARKS = [None, [MARK], "class"]
PREF = [None, {"organization_name": "y", "contacts": ["a", "b"]}, {"trust_mark_issuers": {"https://m.example.com": [B]}}]


def made_dict(**kwargs):
    return {k.replace("_", "."): v for k, v in kwargs.items()}


def others(res, case):
    from fedservice import utils
    from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
    Clock.reset()
    pick = lambda vals, i: json.loads(json.dumps(vals[i]))
    anchors, subs, policy, hints, marks, pref = [pick(v, i) for v, i in
                                                 zip((ANCHORS, SUBS, POLICY, HINTS, MARKS, PREF), case["pick"])]
    spec = lambda kind, val: {"class": "mc.given.Given", "kwargs": {"value": val}} if kind == "d" else {
        "class": "mc.given.givens", "kwargs": {"value": val}}
    args = {"key_config": key_conf(1), "preference": pref, "endpoints": ["entity_configuration", "fetch", "list"]}
    if anchors == "class":
        anchors = {B: jwks(6)}
        args["trust_anchors"] = spec("d", anchors)
    else:
        args["trust_anchors"] = anchors
    if subs == "class":
        subs = {S: {"jwks": jwks(7)}}
        args["subordinate"] = spec("d", subs)
    else:
        args["subordinate"] = subs
    args["metadata_policy"] = policy
    if hints == "class":
        hints = [B]
        args["authority_hints"] = spec("l", hints)
    else:
        args["authority_hints"] = hints
    if marks == "class":
        marks = [MARK]
        args["trust_marks"] = spec("l", marks)
    else:
        args["trust_marks"] = marks
    args = json.loads(json.dumps(args))
    fe = getattr(utils, BUILD[case["by"]])(T, **args)
    res.count("evaluations")
    tas = fe.function.trust_chain_collector.trust_anchors
    ns = lambda ks: sorted((k["n"], k["kid"]) for k in ks["keys"])
    if {k: ns(tas[k]) for k in tas.keys()} != {k: ns(v) for k, v in (anchors or {}).items()}:
        return f"trusts {dict(tas)}, should be {anchors}"
    for a in (A, B):
        have = fe.keyjar.export_jwks(issuer_id=a) if a in fe.keyjar else {"keys": []}
        if ns(have) != ns((anchors or {}).get(a, {"keys": []})):
            return f"has keys {have} for {a}"
    p = payload_of(fe.get_endpoint("entity_configuration").process_request({})["response"])
    if p.get("authority_hints", []) != (hints or []):
        return f"hints {p.get('authority_hints')}, should be {hints}"
    if p.get("trust_marks", []) != (marks or []):
        return f"marks {p.get('trust_marks')}, should be {marks}"
    md = dict(pref or {}, federation_fetch_endpoint=T + "/fetch", federation_list_endpoint=T + "/list")
    if p["metadata"] != {"federation_entity": md}:
        return f"metadata {p['metadata']}, should be {md}"
    if ns(p["jwks"]) != ns(jwks(1)) or any("d" in k for k in p["jwks"]["keys"]):
        return f"keys {p['jwks']}"
    verify_self_signed_signature(fe.get_endpoint("entity_configuration").process_request({})["response"])
    listed = fe.get_endpoint("list").process_request({})["response_msg"]
    if sorted(json.loads(listed)) != sorted(subs or {}):
        return f"lists {listed}"
    for s in (S, B):
        try:
            got = fe.get_endpoint("fetch").process_request({"sub": s})
        except Exception as err:
            got = {"error": repr(err)}
        if s not in (subs or {}):
            if "error" not in got:
                return f"a statement about {s}: {got}"
            continue
        p = payload_of(got["response_msg"])
        if p["sub"] != s or ns(p["jwks"]) != ns(subs[s]["jwks"]):
            return f"states {p} about {s}"
        want = (policy or {}).get(s, {}).get("metadata_policy")
        if "oauth_client" in (policy or {}) and "entity_types" in subs[s]:
            want = {"oauth_client": policy["oauth_client"]["metadata_policy"]}
        if (p.get("metadata_policy") or None) != want:
            return f"policy {p.get('metadata_policy')} for {s}"
    return None


def cases(thorough):
    for kind in CLASS:
        keys = [k for k, _ in forms_by_key(kind)]
        for key in keys:
            base = {k: forms_by_key(k)[0][0] for k in CLASS}
            base[kind] = key
            for init, item in itertools.product(([], [kind], list(CLASS)), repeat=2):
                for by in (0, 1):
                    for eid in ("https://e.example.com", "https://e.example.com/t/"):
                        yield dict(base, init=init, item=item, by=by, id=eid)
    some = {k: [key for key, _ in forms_by_key(k)][::1 if thorough and k == "function" else 7 if thorough else 31] +
            [key for key, _ in forms_by_key(k) if "names" not in key] for k in CLASS}
    for trio in itertools.product(*some.values()):
        for args in ([], list(CLASS)):
            yield dict(zip(some, trio), init=args, item=args, by=1, id="https://e.example.com/t")
    for pick in itertools.product(*(range(len(v)) for v in (ANCHORS, SUBS, POLICY, HINTS, MARKS, PREF))):
        for by in (0, 1):
            if by or MARKS[pick[4]] != "class":
                yield {"pick": pick, "by": by}


def one(res, case):
    try:
        bad = (others if "pick" in case else structure)(res, case)
    except Exception as err:
        bad = repr(err)
    if bad:
        res.violation(f"{bad[:60]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
    else:
        res.states.add(digest(case))


def work(chunk):
    res = Result()
    for case in chunk:
        one(res, case)
    return res


def main():
    chk = Check("C29", "exploration", ["components the distribution names and ones of one's own; arguments their classes take",
                                       "persistence and the entity types of a combination aren't varied"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    res = parallel(work, chunked(list(cases(chk.thorough)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "all sets of names, and specifications of one's own, of services, endpoints and functions x ways to give arguments "
                "x 2 builders x identifiers; triples of forms; all combinations of trust anchors, subordinates, policies, hints, "
                "trust marks and preferences", "exhaustive": True,
    })


if __name__ == "__main__":
    main()
