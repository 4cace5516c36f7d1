"""C30: an authorization server accepts only addresses a client may be sent to, and makes up identifiers and secrets.

All single addresses and ordered pairs x kinds of clients x response types, all combinations of other addresses and
all sequences of registrations with differently configured servers, registered explicitly with a real authorization
server that finds a real trust chain, against a table of what's allowed."""
import mc.env  # noqa
import copy
import itertools
import json
from urllib.parse import parse_qs
from urllib.parse import urlsplit

from checks import c15
from mc.env import Clock, T0
from mc.fed import fresh_world, key_conf, jwks, payload_of, sign
from mc.graph import eid
from mc.op import server_config
from mc.report import Check, Result, chunked, digest, parallel

ME, KEY, AS, CLIENT = c15.ME, c15.KEY, "oauth_authorization_server", "oauth_client"
URIS = ["https://c.example.com/cb", "https://c.example.com:8443/a/b?x=1&y=2", "https://other.example.org", "http://c.example.com/cb",
        "http://localhost/cb", "http://127.0.0.1:8080/cb?z=1", "http://localhost.example.com/cb",
        "http://c.example.com/localhost", "https://localhost/cb", "com.example.app:/cb", "app://localhost/cb?q=1",
        "https://c.example.com/cb#f", "http://c.example.com/cb#f", "ftp://c.example.com/cb"]
TYPES, RESP = [None, "web", "native"], [["code"], ["token"], ["code", "token"], None]
PAGES = ["policy_uri", "logo_uri", "tos_uri"]
WHERE = [None, "https://c.example.com/page", "https://evil.example.com/page", "http://c.example.com/page",
         "https://c.example.com:8443/page"]
REQS = [None, ["https://c.example.com/req"], ["https://c.example.com/req#abc", "https://c.example.com/two"],
        ["https://c.example.com/req?x=1"], ["https://c.example.com/req", "https://c.example.com/two?x=1#abc"]]
CONF = {"plain": {}, "minute": {"client_secret_expires_in": 60}, "never": {"client_secret_expires": False},
        "seed": {"seed": "abcdefghijklmnop", "client_secret_expires_in": 86400}}


class Fed(c15.Fed):
    def statement(self, n, sub, fault=None):
        self.policy = None
        return super().statement(n, sub, fault)


def server(conf):
    from fedservice.utils import make_federation_combo
    cnf = server_config(AS, 10)
    cnf["preference"]["response_types_supported"] = ["code", "token", "code token"]
    cnf["endpoint"]["registration"].setdefault("kwargs", {}).update(copy.deepcopy(CONF[conf]))
    s = c15.Server.__new__(c15.Server)
    s.kind, s.typ = AS, CLIENT
    s.combo = make_federation_combo(
        ME, key_config=key_conf(KEY["O"]), authority_hints=[], trust_anchors={eid("A"): jwks(KEY["A"])},
        preference={"organization_name": ME}, endpoints=["entity_configuration"],
        services=["entity_configuration", "entity_statement"],
        entity_type={AS: {"class": "fedservice.appserver.ServerEntity", "kwargs": {"config": cnf, "entity_type": AS}}})
    s.server = s.combo[AS]
    s.ep = s.server.get_endpoint("registration")
    s.cdb = s.server.context.cdb
    return s


def token(who, md):
    now = int(Clock.now)
    return sign({"iss": eid(who), "sub": eid(who), "iat": now - 5, "exp": now + 3600, "jwks": jwks(KEY[who]),
                 "metadata": {CLIENT: md, "federation_entity": {"organization_name": who}},
                 "authority_hints": [eid("A")]}, KEY[who])


def allowed(typ, resp, uri):
    p = urlsplit(uri)
    web = p.scheme in ("http", "https")
    if typ == "native":
        return not web or p.scheme == "http" and p.hostname in ("localhost", "127.0.0.1")
    return web and not p.fragment and (p.scheme == "https" or resp == ["code"])


def start(conf="plain"):
    Clock.reset()
    fed = Fed({"C": "A", "X": "A"}, CLIENT)
    fed.serve(fresh_world())
    return server(conf)


def addresses(res, s, case):
    Clock.advance(1)
    md = dict(c15.client_md(CLIENT), redirect_uris=case["uris"])
    del md["response_types"]
    for k, v in [("application_type", case["type"]), ("response_types", case["resp"]), ("request_uris", case.get("req")),
                 ("post_logout_redirect_uri", case.get("out"))] + list(case.get("pages", {}).items()):
        if v is not None:
            md[k] = v
    before = s.snapshot()
    resp = s.register(token("C", md))
    after = s.snapshot()
    res.count("evaluations")
    new = set(after) - set(before)
    if any(after.get(k) != before[k] for k in before):
        return "another client changed"
    ok = all(allowed(case["type"], case["resp"], u) for u in case["uris"])
    for where in case.get("pages", {}).values():
        if where is not None:
            ok = ok and any(urlsplit(u)[:2] == urlsplit(where)[:2] for u in case["uris"])
    ok = ok and not any(urlsplit(u).query for u in case.get("req") or []) and not urlsplit(case.get("out") or "").fragment
    if not ok:
        res.count("refused")
        return "registered" if resp is not None or new else None
    if resp is None or len(new) != 1:
        return f"refused, or {new} new"
    res.count("registered")
    entry = after[new.pop()]
    info = payload_of(resp)["metadata"][CLIENT]
    if info.get("client_id") != entry["client_id"] or entry["client_id"] in before or entry["client_id"] == eid("C"):
        return f"registered {entry['client_id']} said {info.get('client_id')}"
    got = [(u[0], dict(u[1] or {})) for u in entry["redirect_uris"]]
    custom = lambda u: case["type"] == "native" and urlsplit(u).scheme not in ("http", "https")
    want = [(u, {}) if custom(u) else (u.split("?")[0], parse_qs(urlsplit(u).query)) for u in case["uris"]]
    if got != want:
        return f"may be sent to {got}, should be {want}"
    for page, where in case.get("pages", {}).items():
        if entry.get(page) != where:
            return f"{page} is {entry.get(page)}"
    reqs = [tuple(u) if not isinstance(u, str) else (u, "") for u in entry.get("request_uris", [])]
    if reqs != [tuple((u.split("#") + [""])[:2]) for u in case.get("req") or []]:
        return f"request_uris are {reqs}"
    return None


# What isn't for the client to decide
GIVEN = {"secret": {"client_secret": "s" * 40, "client_secret_expires_at": T0 + 10**8},
         "times": {"client_id_issued_at": 5, "client_secret_expires_at": 7, "client_salt": "salt"},
         "id": {"client_id": eid("X"), "client_secret": "short"}}


def secrets(res, s, case):
    """Registrations one after the other: all are different, and known as long as they should be"""
    known = {}
    for who in case["who"]:
        Clock.advance(10)
        now = int(Clock.now)
        md = dict(c15.client_md(CLIENT, name=who), **GIVEN.get(who, {}))
        if who == "again" and known:
            cid, (_, sec, _) = list(known.items())[0]
            md.update(client_id=cid, client_secret=sec)
        resp = s.register(token("X" if who == "X" else "C", md))
        res.count("evaluations")
        if resp is None:
            return "refused"
        info = payload_of(resp)["metadata"][CLIENT]
        cid, sec = info.get("client_id"), info.get("client_secret")
        if not cid or cid in known or not sec or len(sec) < 32 or any(sec == k[1] for k in known.values()):
            return f"client_id {cid} secret {sec}"
        if info.get("client_id_issued_at") != now:
            return f"issued at {info.get('client_id_issued_at')}"
        life = {"plain": 2592000, "minute": 60, "never": None, "seed": 86400}[case["conf"]]
        exp = info.get("client_secret_expires_at")
        if exp != now + life if life else exp:
            return f"secret expires at {exp}, now {now}"
        known[cid] = (who, sec, exp)
        for c, (w, k, e) in known.items():
            entry = s.cdb[c]
            if entry.get("client_secret") != k or entry.get("client_secret_expires_at") != e:
                return f"secret of {c} is {entry.get('client_secret')} until {entry.get('client_secret_expires_at')}"
            if entry["client_name"] != w:
                return f"{c} is {entry['client_name']}"
            oct_keys = [x.key for x in s.server.keyjar.get_issuer_keys(c) if x.kty == "oct"]
            if oct_keys and {x.decode() if isinstance(x, bytes) else x for x in oct_keys} != {k}:
                return f"symmetric keys of {c}: {oct_keys}"
            if not oct_keys:
                return f"no symmetric key of {c}"
    if set(s.cdb) != set(known):
        return f"clients {set(s.cdb)}, should be {set(known)}"
    return None


def cases(thorough):
    n = 3 if thorough else 2
    uris = URIS if not thorough else URIS
    for typ, resp in itertools.product(TYPES, RESP):
        for k in range(1, n + 1):
            for us in itertools.product(uris, repeat=k):
                if len(set(us)) == k and (k < 3 or sum(not allowed(typ, resp, u) for u in us) < 2):
                    yield {"type": typ, "resp": resp, "uris": list(us)}
    for us in (URIS[:1], URIS[:2], [URIS[2], URIS[3]]):
        for where in itertools.product(WHERE, repeat=3):
            yield {"type": "web", "resp": ["code"], "uris": us, "pages": dict(zip(PAGES, where))}
        for req in REQS:
            for out in (None, "https://c.example.com/out", "https://c.example.com/out?x=1", "https://c.example.com/out#f"):
                for typ in TYPES:
                    for where in WHERE:
                        if typ != "native":
                            yield {"type": typ, "resp": ["code"], "uris": us, "req": req, "out": out, "pages": {"policy_uri": where}}
    for conf in CONF:
        for k in (1, 2, 3, 4) if thorough else (1, 2, 3):
            for who in itertools.product(("C", "X", "again", *GIVEN), repeat=k):
                yield {"conf": conf, "who": who}


def work(chunk):
    res = Result()
    s = None
    for case in chunk:
        try:
            if "conf" in case:
                bad = secrets(res, start(case["conf"]), case)
            else:
                if s is None or len(s.cdb) > 30 or Clock.now > T0 + 1000:
                    s = start()
                bad = addresses(res, s, case)
        except Exception as err:
            bad = repr(err)
        if bad:
            res.violation(f"{bad[:60]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case}", case)
        else:
            res.states.add(digest(case))
        if "conf" in case:
            s = None
    return res


def main():
    chk = Check("C30", "exploration", ["the OpenID Provider's handling of such metadata is the library's",
                                       "no fragments in redirect URIs of native clients with schemes of their own"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    res = parallel(work, chunked(list(cases(chk.thorough)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "all sequences of different redirect URIs out of 14 x 3 kinds of clients x 4 sets of response types; 5^3 places of "
                "pages; request and logout addresses; sequences of registrations of two clients with 4 configurations",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
