"""C17: a client only takes a registration response for true when the federation says so.

Federations x deviating registration responses to real relying parties and OAuth clients (received over
HTTP), and all histories of genuine and bad responses, policy and key changes, expulsions and passing
time, with real OpenID Providers and Authorization Servers at the other end."""
import mc.env  # noqa
import copy
import itertools
import json

from checks.c15 import Fed, KEY, KINDS, STRUCT, Server, client_md, norm
from mc.env import Clock, T0
from mc.fed import ES_TYPE, WORLD, b64, fresh_world, jwks, key_conf, sign, verifies
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel

ME = eid("C")
SERVER = {v: k for k, v in KINDS.items()}
ANSWER = eid("O") + "/registration"


def make_client(typ, anchors, hints, where="client"):
    from fedservice.utils import make_federation_combo
    oidc = typ == "openid_relying_party"
    v = "oidc" if oidc else "oauth2"
    services = {"registration": {"class": f"fedservice.appclient.{v}.registration.Registration", "kwargs": {}},
                "authorization": {"class": f"fedservice.appclient.{v}.authorization.Authorization",
                                  "kwargs": {}},
                "accesstoken": {"class": f"idpyoidc.client.{v}.access_token.AccessToken", "kwargs": {}}}
    fed_services = ["entity_configuration", "entity_statement"]
    if where != "client":
        fed_services.append("oidc_registration" if oidc else "oauth_registration")
        del services["registration"]
    conf = {"client_id": ME, "client_type": v, "redirect_uris": ["https://c.example.com/cb"],
            "preference": {"grant_types": ["authorization_code", "implicit"], "response_types": ["code"],
                           "client_name": "x", "contacts": ["leaf"],
                           "token_endpoint_auth_method": "private_key_jwt"},
            "key_conf": key_conf(11), "services": services}
    return make_federation_combo(
        ME, key_config=key_conf(KEY["C"]), authority_hints=[eid(h) for h in hints],
        trust_anchors={eid(a): jwks(KEY[a]) for a in anchors}, preference={"organization_name": ME},
        endpoints=["entity_configuration"], services=fed_services,
        entity_type={typ: {"class": "fedservice.appclient.ClientEntity",
                           "kwargs": {"config": conf, "entity_type": typ, "services": services}}})


class Client:
    def __init__(self, typ, anchors, hints, where="client", issuer=""):
        self.typ, self.where = typ, where
        self.combo = make_client(typ, anchors, hints, where)
        self.unit = self.combo[typ] if where == "client" else self.combo["federation_entity"].client
        self.service = self.unit.get_service("registration")
        self.context = self.service.upstream_get("context")
        self.service.endpoint = ANSWER
        self.context.issuer = issuer
        self.more = {}
        if where == "beside":       # the federation entity's service, on behalf of the client
            self.context.issuer = ""
            self.combo[typ].context.issuer = issuer
            self.more = {"behaviour_args": {"client": self.combo[typ]}}
            if typ == "openid_relying_party":
                self.context = self.combo[typ].context

    def state(self):
        claims = self.combo[self.typ].context.claims
        return copy.deepcopy([getattr(self.context, "registration_response", None), claims.use, claims.prefer,
                              getattr(self.combo[self.typ].context, "client_id", None)])

    def receive(self, token):
        """The metadata accepted or None"""
        if self.where != "federation":
            WORLD[0].add(ANSWER, lambda q: (200, ES_TYPE, token))
            try:
                resp = self.unit.service_request(self.service, url=ANSWER, method="POST", body="request",
                                                 response_body_type="jose", headers={}, **self.more)
            except Exception as err:
                # further down the library judges whether this client can do it at all
                return "unable" if "Not able to support" in str(err) else None
        else:
            try:
                resp = self.service.parse_response(token)
            except Exception:
                return None
        if not resp or "error" in resp:
            return None
        got = resp if self.typ == "openid_relying_party" else resp[self.typ]
        return json.loads(json.dumps(got if isinstance(got, dict) else got.to_dict()))


WHERE = ("client", "federation", "beside")


# --------------------------------------------------------------------------------- responses
RESP = {
    "by": ["O", "forged", "X", "protocol", "tampered", "none", "C", "other jwks"],
    "iss": ["O", "X", "C", "N"],
    "sub": ["C", "X", "O"],
    "ta": ["A", "B", "U", "O", None],
    "exp": [3600, -1, -5000, None],
    "md": ["full", "renamed", "implicit", "other type", "none", "empty", "allotted"],
    "body": ["jwt", "garbage", "json"],
}
GOOD = {k: v[0] for k, v in RESP.items()}


def response(c, typ):
    now = int(Clock.now)
    md = client_md(typ)
    md.update(client_id=ME, client_secret="s" * 40, client_secret_expires_at=now + 86400)
    for claim in ("redirect_uris", "jwks", "token_endpoint_auth_method"):
        del md[claim]
    if c["md"] == "renamed":
        md["client_name"] = "renamed"
    elif c["md"] == "allotted":
        md["client_id"] = "allotted"
    elif c["md"] == "implicit":
        md["grant_types"] = ["implicit"]
    other = (set(SERVER) - {typ}).pop()
    types = {"other type": {other: md}, "none": None, "empty": {}}.get(c["md"], {typ: md})
    p = {"iss": eid(c["iss"]), "sub": eid(c["sub"]), "iat": now - 5, "aud": eid(c["sub"]),
         "jwks": jwks(KEY["O"])}
    if types is not None:
        p["metadata"] = types
    if c["ta"]:
        p["trust_anchor_id"] = eid(c["ta"])
    if c["exp"] is not None:
        p["exp"] = now + c["exp"]
    key = {"forged": 13, "X": KEY["X"], "C": KEY["C"], "protocol": 10, "other jwks": 13}.get(c["by"], KEY["O"])
    p["jwks"] = jwks(KEY["O"], 13) if c["by"] == "other jwks" else jwks(key)
    tok = sign(p, key)
    if c["by"] == "tampered":
        h, _, s = tok.split(".")
        tok = f"{h}.{b64(dict(p, extra=1))}.{s}"
    elif c["by"] == "none":
        tok = b64({"alg": "none"}) + "." + b64(p) + "."
    if c["body"] == "garbage":
        tok = "a.b.c"
    elif c["body"] == "json":
        tok = json.dumps(p)
    return tok, md if types and typ in types else None


def judge(c, tok, md, fed, case):
    """(must, the metadata possible)"""
    now = int(Clock.now)
    if c["body"] != "jwt" or c["sub"] != "C" or not c["ta"] or c["ta"] not in case["anchors"]:
        return False, []
    if c["exp"] is not None and c["exp"] < 0:
        return False, []
    if c["iss"] == "N" or not fed.chains(c["iss"], c["ta"]) or not verifies(tok, jwks(KEY[c["iss"]])):
        return False, []
    if case.get("issuer") and case["issuer"] != c["iss"]:
        return False, []
    own = fed.chains("C", c["ta"])
    if not own:
        return False, []
    if md is None:
        return (None if c["md"] in ("none", "empty") else False), None
    options = [r for r in (fed.resolved(md, path) for path in own) if r is not None]
    if not options:
        return False, []
    published = [fed.resolved(fed.metadata["C"][fed.typ], p) for p in own]
    if len(own) > 1 or c["exp"] is None or c["iss"] != "O" or None in published:
        return None, options
    return True, options


def wrong(client, tok, must, options):
    before = client.state()
    got = client.receive(tok)
    if got == "unable" and must is not False or options is None and must is None:    # the published metadata then counts
        return None
    if got is None:
        if client.state() != before:
            return "refused, but something changed"
        return "refused" if must else None
    if must is False:
        return "accepted"
    for md in options:
        diff = [k for k in set(md) | set(got) if norm(md.get(k)) != norm(got.get(k))]
        if not diff:
            break
    else:
        return f"accepted with other {diff}: {[got.get(k) for k in diff]} not {[md.get(k) for k in diff]}"
    kept = client.context.registration_response
    kept = kept if client.typ == "openid_relying_party" else kept[client.typ]
    if any(norm(kept.get(k)) != norm(v) for k, v in got.items()):
        return "something else kept than returned"
    if client.where != "federation":
        use = client.combo[client.typ].context.claims.use
        for k in ("client_id", "client_secret", "client_name"):
            if k in got and use.get(k) != got[k]:
                return f"uses {k} {use.get(k)} not {got[k]}"
        if client.combo[client.typ].get_client_id() != got["client_id"]:
            return f"goes by {client.combo[client.typ].get_client_id()} not {got['client_id']}"
    return None


def hints_for(struct, server):
    h = {k: list(v) for k, v in STRUCT[struct].items()}
    for k, v in STRUCT[server].items():
        k = "O" if k == "C" else k
        h[k] = h.get(k, []) + [x for x in v if x not in h.get(k, [])]
    h["X"] = ["A"]
    return h


def single(res, case):
    Clock.reset()
    c = dict(GOOD, **case.get("resp", {}))
    typ = case["typ"]
    faults = {tuple(k): v for k, v in case.get("faults", [])}
    fed = Fed(hints_for(case["struct"], case["server"]), typ, case.get("policy"), case.get("given"), faults)
    fed.serve(fresh_world())
    cl = Client(typ, case["anchors"], fed.hints.get("C", []), case.get("where", "client"),
                eid(case["issuer"]) if case.get("issuer") else "")
    for n in range(2):
        tok, md = response(c, typ)
        must, options = judge(c, tok, md, fed, case)
        bad = wrong(cl, tok, must, options)
        res.count("evaluations")
        res.count(f"verdict {must}")
        if bad:
            res.violation(f"{bad[:50]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case} round {n}", case)
            return
    res.states.add(digest(case))
    if len(case.get("resp", {})) > 1:
        res.sample(case)


# --------------------------------------------------------------------------------- histories
OPS = ["register", "other", "forged", "old key", "violated", "fine", "expel O", "expel C", "new key",
       ("time", 3603)]


def history(res, case):
    """With a real server, being asked for real or made fun of"""
    Clock.reset()
    typ = case["typ"]
    fed = Fed({"C": "A", "O": "A", "X": "A"}, typ)
    fed.serve(fresh_world())
    s = Server(SERVER[typ], "A")
    cl = Client(typ, "A", "A")
    key = [KEY["O"]]
    changed = {}
    for n, op in enumerate(list(case["ops"]) + ["register", "forged"]):
        now = int(Clock.now)
        bad = None

        def was(what):
            """True, False or - when it was different less than an hour ago - None"""
            v = fed.__dict__.get("is_" + what, False)
            return v if now > changed.get(what, -10**9) + 3600 else None

        if op in ("register", "other", "forged", "old key"):
            md = client_md(typ)
            md.update(client_id=ME, client_secret=f"{n}" * 40)
            for claim in ("redirect_uris", "jwks", "token_endpoint_auth_method"):
                del md[claim]
            by = {"forged": 13, "other": KEY["X"], "old key": KEY["O"], "register": key[0]}[op]
            p = {"iss": eid("X" if op == "other" else "O"), "sub": ME if op != "other" else eid("X"),
                 "aud": ME, "iat": now, "exp": now + 600, "jwks": jwks(by), "trust_anchor_id": eid("A"),
                 "metadata": {typ: md}}
            tok = sign(p, by)
            if op == "register" and key[0] == KEY["O"] and was("violated") is False and \
                    was("expelC") is False and case["ops"][:n].count("register") == 0:
                # what a real server makes of the client's own request
                body = cl.service.get_request_parameters(request_body_type="jose", method="POST",
                                                         behaviour_args={"client": cl.combo[typ]})["body"]
                fed.metadata["C"] = json.loads(json.dumps(payload(body)["metadata"]))
                real = s.register(body)
                if real is None:
                    bad = "a real server refused"
                else:
                    tok = real
                    md = payload(real)["metadata"][typ]
                fed.metadata["C"] = {typ: client_md(typ)}
            oks = [op not in ("forged", "other"), None if was("expelO") is None else not was("expelO"),
                   None if was("expelC") is None else not was("expelC"),
                   None if was("violated") is None else not was("violated")]
            if op == "old key":
                oks.append(key[0] == KEY["O"] or (None if was("newkey") is None else False))
            elif op == "register":
                oks.append(key[0] == KEY["O"] or (None if was("newkey") is None else True))
            must = False if False in oks else None if None in oks else True
            res.count("evaluations")
            res.count(f"verdict {must}")
            opts = [dict(md, contacts=sorted(set(md.get("contacts", [])) | {"A"}))]
            bad = bad or wrong(cl, tok, must, opts)
            res.states.add(digest([typ, case["ops"][:n], op]))
        elif op in ("violated", "fine"):
            if (fed.policy == "violated") != (op == "violated"):
                fed.policy = "violated" if op == "violated" else None
                fed.is_violated = op == "violated"
                changed["violated"] = now
        elif op in ("expel O", "expel C"):
            name = "expel" + op[-1]
            if not fed.__dict__.get("is_" + name):
                changed[name] = now
                setattr(fed, "is_" + name, True)
            fed.faults[("fetch", "A", op[-1])] = "404"
        elif op == "new key":
            if key[0] == KEY["O"]:
                key[0] = 14
                fed.key = dict(fed.key, O=14)
                changed["newkey"] = now
                fed.is_newkey = True
        else:
            Clock.advance(op[1])
        if bad:
            res.violation(f"{bad[:50]}:{json.dumps(case)}", f"{bad} {case} step {n} {op}", case)
            return


def payload(tok):
    from mc.fed import payload_of
    return payload_of(tok)


def cases(thorough):
    for typ in SERVER:
        for st, sv in itertools.product(STRUCT, STRUCT):
            for anchors in ("A", "B", "AB", "BA", "U", "M"):
                for ta in ("A", "B", "M"):
                    yield {"typ": typ, "struct": st, "server": sv, "anchors": anchors, "resp": {"ta": ta}}
        for st in STRUCT:
            for pol in (None, "value", "violated"):
                for given in (False, True):
                    for md in RESP["md"]:
                        for ta in "AB":
                            for where in WHERE:
                                yield {"typ": typ, "struct": st, "server": "AB", "anchors": "AB", "policy": pol,
                                       "given": given, "resp": {"md": md, "ta": ta}, "where": where}
        for n in range(1, 4 if thorough else 3):
            for dims in itertools.combinations(RESP, n):
                for vals in itertools.product(*(RESP[d][1:] for d in dims)):
                    for issuer in ("", "O", "X"):
                        for where in WHERE:
                            yield {"typ": typ, "struct": "A", "server": "A", "anchors": "AB", "issuer": issuer,
                                   "resp": dict(zip(dims, vals)), "where": where}
        for st, sv in itertools.product(("A", "M", "MB"), repeat=2):
            for who, sub in (("A", "C"), ("A", "O"), ("A", "M"), ("M", "C"), ("M", "O"), ("B", "M")):
                for f in ("404", "bad signature", "expired", "garbage", "other keys", "about another", "by another"):
                    for by in ("O", "forged"):
                        yield {"typ": typ, "struct": st, "server": sv, "anchors": "AB", "resp": {"by": by},
                               "faults": [[["fetch", who, sub], f]]}


def histories(depth):
    for typ in SERVER:
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                yield {"typ": typ, "ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "ops" in case:
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        else:
            single(res, case)
    return res


def main():
    chk = Check("C17", "exploration", ["responses name one trust anchor", "own metadata verification service not "
                                       "used", "one trust chain from the client to that anchor"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 4 if chk.thorough else 3
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(depth)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "8x8 federations x trust anchors x policies x responses with up to 2 (thorough: 3) deviations in "
                "7 dimensions x known issuer x place of the service, faulty statements, and all histories of 10 "
                "operations up to the stated length followed by two responses",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
