"""C16: automatic registration lets in precisely those a valid trust chain vouches for.

Federations x requests (with trust chains of their own, genuine, someone else's or forged) on the
authorization endpoints of real OpenID Providers and Authorization Servers and on pushed
authorization, and all histories of requests, changes, expulsions, explicit registrations and passing
time, judged against a model of who the clients are."""
import mc.env  # noqa
import copy
import itertools
import json

from checks.c15 import Fed, STRUCT, Server, client_md, norm, wrong as _wrong  # noqa: F401
from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, make_entity, sign
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel

KEY = {"O": 0, "C": 1, "A": 2, "B": 3, "M": 4, "U": 5, "X": 6}
ME = eid("O")
ENDPOINTS = {"op": ("openid_provider", "authorization"),
             "as": ("oauth_authorization_server", "authorization"),
             "par": ("oauth_authorization_server", "pushed_authorization")}
CHAINS = ["none", "good", "json", "exported", "with anchor", "X's", "X's leaf", "no leaf", "forged leaf",
          "forged link", "unknown anchor", "expired", "mixed", "not a chain", "text", "reversed", "anchor's"]
OFFLINE = "offline"


def target(s, which):
    return s.server.get_endpoint(ENDPOINTS[which][1])


def assertion(s, which, cid, key):
    now = int(Clock.now)
    Clock.jti = getattr(Clock, "jti", 0) + 1
    return sign({"iss": cid, "sub": cid, "aud": sorted(target(s, which).allowed_target_uris()),
                 "iat": now, "exp": now + 300, "jti": f"j{Clock.jti}"}, key, headers={"typ": "JWT"})


def request(s, which, cid, redirect, key=11, chain=None, extra=None):
    req = {"client_id": cid, "response_type": "code", "state": "st", "scope": "openid"}
    if redirect:
        req["redirect_uri"] = redirect
    if chain is not None:
        req["trust_chain"] = chain
    if which == "par" and key:
        req["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
        req["client_assertion"] = assertion(s, which, cid, key)
    req.update(extra or {})
    return req


def accepted(s, which, cid, req):
    try:
        resp = target(s, which).parse_request(req)
    except Exception:
        resp = {"error": "exception"}
    return "error" not in resp and resp.get("client_id") == cid


def ask(s, which, cid, redirect, key=11, chain=None, extra=None):
    """True when the request was accepted"""
    req = request(s, which, cid, redirect, key, chain, extra)
    before = json.dumps(chain) if chain is not None else None
    res = accepted(s, which, cid, req)
    if before is not None and json.dumps(chain) != before:
        return "modified"
    return res


def chains_for(kind, fed, anchors, paths):
    """The trust chain put in a request, and whether it can be used"""
    if kind == "none":
        return None, False
    cpaths = [p for p in paths if p[-1] in anchors]
    path = cpaths[0] if cpaths else ["C", "U"]
    fed.used = path
    up = list(zip(path[1:], path))
    toks = [fed.ec("C")] + [fed.statement(a, b) for a, b in up]
    good = bool(cpaths)
    if kind == "good":
        return toks, good
    if kind == "json":
        return json.dumps(toks), good
    if kind == "exported":
        w = fresh_world()
        saved, fed.faults = fed.faults, {}
        fed.serve(w)
        e = make_entity(eid("C"), KEY["C"], trust_anchors={eid(a): jwks(KEY[a]) for a in anchors},
                        authority_hints=[eid(h) for h in fed.hints.get("C", [])])
        from fedservice.entity.function import get_verified_trust_chains
        try:
            tcs = get_verified_trust_chains(e, eid("C"))
        except Exception:
            tcs = []
        fed.faults = saved
        if not tcs:
            return None, False
        first = tcs[0].export_chain()
        again = tcs[0].export_chain()
        fed.used = [u.split("//")[1][0].upper() for u in tcs[0].iss_path]
        return again if again == first else "differs", True
    if kind == "with anchor":
        return toks + [fed.ec(path[-1])], None if good else False
    if kind == "X's":
        return [fed.ec("X"), fed.statement("A", "X")], False
    if kind == "X's leaf":
        return [fed.ec("X")] + toks[1:], False
    if kind == "no leaf":
        return toks[1:], False
    if kind == "forged leaf":
        return [fed.ec("C", "bad signature")] + toks[1:], False
    if kind == "forged link":
        return toks[:-1] + [fed.statement(path[-1], path[-2], "bad signature")], False
    if kind == "unknown anchor":
        return [fed.ec("C"), sign({"iss": eid("U"), "sub": eid("C"), "iat": T0, "exp": T0 + 900,
                                   "jwks": jwks(KEY["C"])}, KEY["U"])], False
    if kind == "expired":
        return toks[:-1] + [fed.statement(path[-1], path[-2], "expired")], False
    if kind == "mixed":     # the last statement is about someone else
        return [fed.ec("C"), fed.statement("A", "X")], False
    if kind == "not a chain":
        return ["a.b.c", 7], False
    if kind == "text":
        return "tell me", False
    if kind == "reversed":
        return toks[::-1], False
    if kind == "anchor's":
        return [fed.ec("A")], False


REDIRECT = "https://c.example.com/cb"
REQ = {"cid": ["C", "X", "A", "N"], "redirect": [REDIRECT, REDIRECT + "2", ""], "key": [11, 12, KEY["C"], None]}


class Fed16(Fed):
    def __init__(self, hints, typ, **kw):
        super().__init__(hints, typ, **kw)
        self.hints["X"] = ["A"]
        md = client_md(typ)
        md["redirect_uris"] = ["https://x.example.com/cb"]
        self.metadata["X"] = {typ: md}


def check_entry(s, cid, options):
    """What's registered has to be what one of the chains makes of it"""
    entry = s.cdb.get(cid)
    if entry is None:
        return "not registered"
    reason = "registered although no chain"
    for _, md in options:
        reason = None
        for claim, value in md.items():
            if claim == "redirect_uris":
                if [u[0] for u in entry.get(claim, [])] != value:
                    reason = f"registered {claim} {entry.get(claim)} not {value}"
            elif claim in ("client_name", "contacts"):
                if norm(entry.get(claim)) != norm(value):
                    reason = f"registered {claim} {entry.get(claim)} not {value}"
        kids = sorted(k["kid"] for k in md["jwks"]["keys"])
        if sorted(set(s.keys_of(cid))) != kids:
            reason = f"keys {s.keys_of(cid)} not {kids}"
        if not reason:
            return None
    return reason


def single(res, case):
    Clock.reset()
    which = case["at"]
    kind = ENDPOINTS[which][0]
    typ = {"openid_provider": "openid_relying_party"}.get(kind, "oauth_client")
    faults = {}
    fed = Fed16(STRUCT[case["struct"]], typ, policy=case.get("policy"), given=case.get("given"))
    if case.get("names"):       # in its metadata
        fed.metadata["C"][typ]["client_id"] = eid(case["names"])
    r = dict({k: v[0] for k, v in REQ.items()}, **case.get("req", {}))
    s = Server(kind, case["anchors"], case.get("priority", ""))
    chain, usable = chains_for(case.get("chain", "none"), fed, case["anchors"],
                               fed.chains("C", case["anchors"]))
    if case.get("offline"):
        faults = {("ec", n): "no connection" for n in KEY}
        faults.update({("fetch", n, "*"): "no connection" for n in KEY})
        fed.faults = faults
    fed.serve(fresh_world())

    def resolved(paths, name):
        md = copy.deepcopy(fed.metadata[name][typ])
        return [(p[-1], m) for p, m in ((p, fed.resolved(md, p)) for p in paths) if m is not None]

    if r["cid"] in "CX":
        own = [] if case.get("offline") else resolved(fed.chains(r["cid"], case["anchors"]), r["cid"])
        given = []
        if r["cid"] == "C" and usable is not False:
            given = resolved([fed.used], "C")
        elif r["cid"] == "X" and case.get("chain") == "X's" and "A" in case["anchors"]:
            usable = True
            given = resolved([["X", "A"]], "X")
    else:
        own, given = [], []
    options = own + given
    registered = bool(options)
    if not own and usable is None:
        registered = None
    if all(fed.hints.get(a) for a, _ in options):
        registered = None if options else False
    good = r["redirect"] == REDIRECT if r["cid"] == "C" else not r["redirect"] if r["cid"] == "N" else None
    if r["redirect"] == REDIRECT + "2" or r["cid"] == "X" and r["redirect"]:
        good = False
    elif not r["redirect"]:
        good = None if which == "as" or which == "par" else False
    if which == "par" and r["key"] != 11:
        good = False if r["key"] is not None else None
        if r["key"] is None:
            good = False
    accepted = False if registered is False or good is False else None if None in (registered, good) else True

    for n in range(2):      # and once again, when it's known
        before = s.snapshot()
        got = ask(s, which, eid(r["cid"]), r["redirect"], r["key"], copy.deepcopy(chain))
        res.count("evaluations")
        res.count(f"verdict {accepted}")
        bad = None
        after = s.snapshot()
        if got == "modified":
            bad = "the request was modified"
        elif got and accepted is False:
            bad = "accepted"
        elif not got and accepted:
            bad = "refused"
        elif set(after) - {eid(r["cid"])} or [k for k in before if k not in after and registered]:
            bad = f"registered {sorted(after)}"
        elif eid(r["cid"]) in after:
            bad = check_entry(s, eid(r["cid"]), options)
        elif registered:
            bad = "not registered"
        if not bad and got:
            extra = target(s, which).extra_response_args({}, client_id=eid(r["cid"]))
            anchor = extra.get("trust_anchor_id")
            first = [a for a in case.get("priority", "") if a in {o[0] for o in own}]
            if anchor and anchor not in [eid(a) for a, _ in options]:
                bad = f"trust anchor {anchor}"
            elif anchor and own and case.get("chain", "none") == "none" and first and len(own) > 1 \
                    and anchor != eid(first[0]):
                bad = f"trust anchor {anchor} although {first[0]} has priority"
        if bad:
            res.violation(f"{bad[:50]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case} round {n}", case)
            return
    res.states.add(digest(case))
    if case.get("chain", "none") != "none" and case.get("req"):
        res.sample(case)


# --------------------------------------------------------------------------------- histories
OPS = [("req", 1), ("req", 2), ("is", 2), "expel", "admit", "explicit", "bogus", ("time", 3603)]
EXPLICIT = "https://c.example.com/explicit"


def lasting(s, cid):
    """What's registered, apart from how the client last authenticated"""
    return {k: v for k, v in copy.deepcopy(s.cdb.get(cid) or {}).items() if k != "auth_method"}


def history(res, case):
    Clock.reset()
    which = case["at"]
    kind = ENDPOINTS[which][0]
    typ = {"openid_provider": "openid_relying_party"}.get(kind, "oauth_client")
    fed = Fed16({"C": ["A"]}, typ)
    fed.serve(fresh_world())
    s = Server(kind, "A")
    cid = eid("C")

    def md(v):
        m = client_md(typ, name=f"v{v}", redirect=f"https://c.example.com/v{v}")
        m["jwks"] = jwks(10 + v)
        return m

    fed.metadata["C"] = {typ: md(1)}
    version = [(-10**9, 1)]             # since when which
    member = [(-10**9, True)]
    explicit = None

    def recent(log):
        """What was so at some time during the last hour"""
        now = int(Clock.now)
        return {v for n, (t, v) in enumerate(log)
                if n == len(log) - 1 or log[n + 1][0] + 3600 >= now}

    for n, op in enumerate(list(case["ops"]) + [("req", 1), ("req", 2)]):
        now = int(Clock.now)
        bad = None
        if op == "bogus" or op[0] == "req":
            v = 2 if op == "bogus" else op[1]
            chain = [fed.ec("X"), fed.statement("A", "X")] if op == "bogus" else None
            got = ask(s, which, cid, f"https://c.example.com/v{v}", 10 + v, chain)
            res.count("evaluations")
            if explicit:
                must = False
                if lasting(s, cid) != explicit:
                    bad = f"explicit registration changed {s.cdb.get(cid)} was {explicit}"
            else:
                vs, ms = recent(version), recent(member)
                must = False if v not in vs or True not in ms else True if vs == {v} and ms == {True} \
                    else None
            res.count(f"verdict {must}")
            if got and must is False:
                bad = "accepted"
            elif not got and must:
                bad = "refused"
            elif got and not explicit:
                bad = bad or check_entry(s, cid, [("A", dict(md(v), contacts=["leaf", "A"]))])
            res.states.add(digest([which, case["ops"][:n], op]))
        elif op == "explicit":
            m = client_md(typ, name="e", redirect=EXPLICIT)
            tok = sign({"iss": cid, "sub": cid, "iat": now, "exp": now + 100, "jwks": jwks(KEY["C"]),
                        "authority_hints": [eid("A")], "metadata": {typ: m}}, KEY["C"])
            done = s.register(tok)
            if done and which == "op":
                explicit = lasting(s, cid)
            if explicit:
                if not ask(s, which, cid, EXPLICIT):
                    bad = "an explicitly registered client was refused"
                elif lasting(s, cid) != explicit:
                    bad = f"explicit registration changed {s.cdb[cid]} was {explicit}"
        elif op[0] == "is":
            new = 3 - version[-1][1]
            version.append((now, new))
            fed.metadata["C"] = {typ: md(new)}
        elif op in ("expel", "admit"):
            if member[-1][1] != (op == "admit"):
                member.append((now, op == "admit"))
            fed.faults = {} if op == "admit" else {("fetch", "A", "C"): "404"}
        else:
            Clock.advance(op[1])
        if bad:
            res.violation(f"{bad[:50]}:{json.dumps(case)}", f"{bad} {case} step {n} {op}", case)
            return


def cases(thorough):
    for at in ENDPOINTS:
        for st in STRUCT:
            for anchors in ("A", "B", "AB", "M"):
                for prio in ("", "AB", "BA", "X"):
                    for pol in (None, "value", "violated"):
                        yield {"at": at, "struct": st, "anchors": anchors, "priority": prio, "policy": pol,
                               "given": pol == "value"}
        for st in STRUCT:
            for names in ("C", "X", "A"):
                for ch in ("none", "good"):
                    yield {"at": at, "struct": st, "anchors": "AB", "names": names, "chain": ch}
        for st in STRUCT:
            for ch in CHAINS:
                for off in (False, True):
                    for anchors in ("A", "B", "AB"):
                        for pol in (None, "value", "violated"):
                            yield {"at": at, "struct": st, "anchors": anchors, "chain": ch, "offline": off,
                                   "policy": pol}
        for ch in CHAINS:
            for st in STRUCT if thorough else ("A", "none", "M"):
                for off in (False, True):
                    for n in (1, 2) if thorough else (1,):
                        for dims in itertools.combinations(REQ, n):
                            for vals in itertools.product(*(REQ[d][1:] for d in dims)):
                                yield {"at": at, "struct": st, "anchors": "A", "chain": ch, "offline": off,
                                       "req": dict(zip(dims, vals))}


# ------------------------------------------------------- clients whose keys are elsewhere
KEYS_AT = eid("C") + "/keys"
PUBLISHING = [("req", 11), ("req", 12), ("put", 11), ("put", 12), "both", "down", ("inline", 12), "address",
              ("time", 3700)]


def signed_request(s, which, key):
    cid = eid("C")
    if which == "par":
        return ask(s, which, cid, REDIRECT, key)
    now = int(Clock.now)
    obj = sign({"iss": cid, "client_id": cid, "aud": [ME, *sorted(target(s, which).allowed_target_uris())],
                "response_type": "code", "state": "st", "scope": "openid", "redirect_uri": REDIRECT, "nonce": "n" * 20,
                "iat": now, "exp": now + 300}, key, headers={"typ": "JWT"})
    return ask(s, which, cid, REDIRECT, extra={"request": obj, "nonce": "n" * 20})


def elsewhere(res, case):
    """Keys at an address (jwks_uri), which changes, and can't always be reached"""
    Clock.reset()
    which = case["at"]
    kind = ENDPOINTS[which][0]
    typ = {"openid_provider": "openid_relying_party"}.get(kind, "oauth_client")
    fed = Fed16({"C": ["A"]}, typ)
    w = fresh_world()
    fed.serve(w)
    s = Server(kind, "A")
    now = {"inline": None, "at": [11], "down": False}

    def publish():
        md = client_md(typ)
        del md["jwks"]
        if now["inline"]:
            md["jwks"] = jwks(now["inline"])
        else:
            md["jwks_uri"] = KEYS_AT
        fed.metadata["C"] = {typ: md}

    def reply(q):
        if now["down"]:
            import requests
            raise requests.exceptions.ConnectionError("down")
        return 200, "application/json", json.dumps(jwks(*now["at"]))
    w.add(KEYS_AT, reply)

    def valid():
        return {now["inline"]} if now["inline"] else set() if now["down"] else set(now["at"])
    publish()
    log = [(-10**9, valid())]       # since when which keys
    asked = False
    for n, op in enumerate(list(case["publishing"]) + [("req", 11), ("req", 12)]):
        if op[0] == "req":
            res.count("evaluations")
            since = [t for t, _ in log[1:]] + [10**12]
            may = set().union(*(k for (_, k), end in zip(log, since) if end > Clock.now - 3600))
            must = True if op[1] in log[-1][1] and (not asked or log[-1][0] <= Clock.now - 3600) else \
                None if op[1] in may else False
            got = signed_request(s, which, op[1])
            res.count(f"key elsewhere {must}")
            asked = True
            if bool(got) != must and must is not None:
                res.violation(f"keys:{json.dumps(case)}", f"{'accepted' if got else 'refused'} key {op[1]}, {now} "
                              f"{case} step {n}", case)
                return
            continue
        if op[0] == "time":
            Clock.advance(op[1])
            continue
        if op[0] == "put":
            now["at"], now["down"] = [op[1]], False
        elif op == "both":
            now["at"], now["down"] = [11, 12], False
        elif op == "down":
            now["down"] = True
        elif op[0] == "inline":
            now["inline"] = op[1]
        elif op == "address":
            now["inline"] = None
        publish()
        if valid() != log[-1][1] or op[0] == "inline" or op == "address":
            log.append((Clock.now, valid()))
    res.states.add(digest(case))


def elsewheres(depth):
    for at in ENDPOINTS:
        for n in range(depth + 1):
            for ops in itertools.product(PUBLISHING, repeat=n):
                yield {"at": at, "publishing": ops}


def histories(depth):
    for at in ENDPOINTS:
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                yield {"at": at, "ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "publishing" in case:
            elsewhere(res, dict(case, publishing=[tuple(o) if isinstance(o, list) else o for o in case["publishing"]]))
        elif "ops" in case:
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        else:
            single(res, case)
    return res


def main():
    chk = Check("C16", "exploration", ["client databases are in memory", "client identifiers are entity ids"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 5 if chk.thorough else 4
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(depth)) +
                                 list(elsewheres(4 if chk.thorough else 3)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": "8 federations x anchors x priorities x policies, x 17 trust chains in the request with and "
                "without network, with deviating client ids, redirect URIs and authentication, at 3 "
                "endpoints, and all histories of 8 operations up to the stated length followed by two requests; all histories of 9 operations on clients "
                "with keys at an address to one less",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
