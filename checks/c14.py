"""C14: a trust mark is accepted exactly when a trust anchor's federation says it should be.

Every combination (up to a number of deviations from a good one) of what a trust mark, its delegation,
the trust anchor's view and the status answer can look like, on a real verifier, judged by an
independent reading; and histories of key changes, expulsions, changed views and passing time."""
import mc.env  # noqa
import itertools
import json
from urllib.parse import unquote

from mc.env import Clock, T0
from mc.fed import ES_TYPE, KEYS, b64, fresh_world, jwks, make_entity, sign, verifies
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel

TM1, TM2 = "https://tm.example.org/one", "https://tm.example.org/two"
KEY = {"V": 0, "T": 1, "A": 2, "B": 3, "X": 5, "O": 6, "M": 7}
OWNER, OWNER_KEY = "https://owner.example.org", 8
NEW_T = 9
HINTS = {"T": ["M", "B"], "M": ["A"], "X": ["A"], "O": ["U"]}
UNTRUSTED = 10

# --------------------------------------------------------------------- what can be different
DIMS = {
    "iss": ["T", "X", "O"],
    "signer": ["own", "X", "O", "V", "A", "M", "hs256", "none", "stripped", "tampered", "jwk"],
    "exp": [None, 600, 0, -1, -5000],
    "sub": ["S", "other", None],
    "entity_id": ["", "S", "other"],
    "id": [TM1, TM2, None],
    "iat": [True, False],
    "delegation": [None, "good", "by issuer", "by anchor", "other key", "other sub", "other id",
                   "other iss", "expired", "garbage", "own claim"],
    "anchor": ["A", "B", "U", "T", ""],
    "issuers": [None, {TM1: [eid("T")]}, {TM1: eid("T")}, {TM1: []}, {TM1: [eid("X")]},
                {TM2: [eid("X")]}, {TM1: [eid("X"), eid("T")]}],
    "owners": [None, TM1, TM2, "issuer"],
    "anchor_ec": ["good", "forged", "404", "not self", "other jwks"],
}
GOOD = {k: v[0] for k, v in DIMS.items()}
NAMES = list(DIMS)


class Fed:
    """B is a trust anchor without views; A has those of the case"""

    def __init__(self, issuers=None, owners=None, anchor_ec="good"):
        self.issuers, self.owners, self.anchor_ec = issuers, owners, anchor_ec
        self.t_key = KEY["T"]
        self.expelled = False
        self.status = None
        self.asked = []
        self.life = 3600
        self.owner_of = {}

    def key(self, n):
        return self.t_key if n == "T" else UNTRUSTED if n == "U" else KEY[n]

    def ec(self, n):
        md = {"organization_name": n, "federation_fetch_endpoint": eid(n) + "/fetch"}
        now = int(Clock.now)
        if n == "T":
            md["federation_trust_mark_status_endpoint"] = eid("T") + "/status"
        key, kj = self.key(n), self.key(n)
        iss = sub = eid(n)
        if n in self.owner_of:
            o = self.owner_of[n]
            md["trust_mark_issuers"] = {TM1: [eid("T")]}
            md["trust_mark_owners"] = {TM1: {"sub": OWNERS[o][0], "jwks": jwks(OWNERS[o][1])}}
        elif n == "A":
            if self.issuers is not None:
                md["trust_mark_issuers"] = self.issuers
            if self.owners:
                md["trust_mark_owners"] = self.owner_info()
            if self.anchor_ec == "forged":
                key = UNTRUSTED
            elif self.anchor_ec == "other jwks":
                key = kj = UNTRUSTED
            elif self.anchor_ec == "not self":
                sub = eid("X")
            elif self.anchor_ec == "404":
                return 404, "text/plain", ""
        p = {"iss": iss, "sub": sub, "iat": now - 5, "exp": now + self.life, "jwks": jwks(kj),
             "metadata": {"federation_entity": md}}
        if HINTS.get(n):
            p["authority_hints"] = [eid(h) for h in HINTS[n]]
        return 200, ES_TYPE, sign(p, key)

    def owner_info(self):
        if self.owners == "issuer":
            return {TM1: {"sub": eid("T"), "jwks": jwks(self.t_key)}}
        return {self.owners: {"sub": OWNER, "jwks": jwks(OWNER_KEY)}}

    def statement(self, n, q):
        names = {eid(x): x for x in list(KEY) + ["U"]}
        s = names.get(q.get("sub"))
        if s is None or n not in HINTS.get(s, []) or (s == "T" and self.expelled):
            return 404, "text/plain", ""
        now = int(Clock.now)
        return 200, ES_TYPE, sign({"iss": eid(n), "sub": eid(s), "iat": now - 5,
                                   "exp": now + self.life, "jwks": jwks(self.key(s))}, self.key(n))

    def serve(self):
        w = fresh_world()
        for n in list(KEY) + ["U"]:
            w.add(eid(n) + "/.well-known/openid-federation", lambda q, n=n: self.ec(n))
            w.add(eid(n) + "/fetch", lambda q, n=n: self.statement(n, q))

        def status(q):
            self.asked.append(q)
            return self.status(q)
        w.add(eid("T") + "/status", status)
        return self


def token(payload, signer, own):
    """A JWT signed as told; the key id is always the one of the pretended issuer's key"""
    kid = KEYS[own].kid
    if signer == "hs256":
        import hashlib
        import hmac
        from cryptojwt.jwk.rsa import RSAKey  # noqa: F401
        pem = json.dumps(jwks(own)["keys"][0], sort_keys=True).encode()
        si = b64({"alg": "HS256", "kid": kid}) + "." + b64(payload)
        return si + "." + __import__("base64").urlsafe_b64encode(
            hmac.new(pem, si.encode(), hashlib.sha256).digest()).rstrip(b"=").decode()
    if signer == "none":
        return b64({"alg": "none"}) + "." + b64(payload) + "."
    if signer == "stripped":
        return sign(payload, own, headers={"kid": kid}).rsplit(".", 1)[0] + "."
    if signer == "tampered":
        h, _, s = sign(dict(payload, extra="x"), own, headers={"kid": kid}).split(".")
        return f"{h}.{b64(payload)}.{s}"
    if signer == "jwk":
        return sign(payload, 15, headers={"kid": kid, "jwk": jwks(15)["keys"][0]})
    return sign(payload, signer, headers={"kid": kid})


def key_of(who, iss, fed):
    if who == "own":
        return fed.key(iss)
    return KEY[who] if who in KEY else who


def delegation(kind, iss, tm, fed):
    now = int(Clock.now)
    p = {"iss": OWNER, "sub": eid(iss), "id": tm or TM1, "iat": now - 5}
    key = OWNER_KEY
    if fed.owners == "issuer":
        p["iss"], key = eid("T"), fed.t_key
    if kind == "garbage":
        return "x.y.z"
    if kind == "by issuer":
        key = KEY[iss]
    elif kind == "own claim":
        p["iss"], key = eid(iss), KEY[iss]
    elif kind == "by anchor":
        p["iss"], key = eid("A"), KEY["A"]
    elif kind == "other key":
        key = 15
    elif kind == "other sub":
        p["sub"] = eid("X" if iss == "T" else "T")
    elif kind == "other id":
        p["id"] = TM2 if tm == TM1 else TM1
    elif kind == "other iss":
        p["iss"] = "https://somebody.example.org"
    elif kind == "expired":
        p["exp"] = now - 3
    return sign(p, key, headers={"typ": "trust-mark-delegation+jwt"})


def mark(c, fed):
    now = int(Clock.now)
    p = {"iss": eid(c["iss"]), "ref": "https://tm.example.org/ref"}
    if c["sub"]:
        p["sub"] = eid(c["sub"])
    if c["id"]:
        p["id"] = c["id"]
    if c["iat"]:
        p["iat"] = now - 50
    if c["exp"] is not None:
        p["exp"] = now + c["exp"]
    if c["delegation"]:
        p["delegation"] = delegation(c["delegation"], c["iss"], c["id"], fed)
    own = fed.key(c["iss"])
    return p, token(p, key_of(c["signer"], c["iss"], fed), own)


ANCHORS = {"A": KEY["A"], "B": KEY["B"]}
ABOVE = {"T": "AB", "X": "A", "O": ""}


def judge(c, p, tok, fed, t_keys=None):
    """True: must be accepted, False: must not, None: either"""
    now = int(Clock.now)
    for claim in ("iss", "sub", "id", "iat"):
        if claim not in p:
            return False
    if "exp" in p and p["exp"] < now:
        return False
    if c["entity_id"] and eid(c["entity_id"]) != p["sub"]:
        return False
    if c["anchor"] not in ABOVE[c["iss"]] or not c["anchor"]:
        return False
    keys = t_keys if t_keys and c["iss"] == "T" else jwks(fed.key(c["iss"]))
    if not verifies(tok, keys):
        return False
    if c["anchor"] == "A":
        if fed.anchor_ec != "good":
            # without the anchor's views: not when there's something to be seen in it
            return False if "delegation" in p else None
        allowed = (fed.issuers or {}).get(p["id"]) or []
        if allowed and p["iss"] not in ([allowed] if isinstance(allowed, str) else allowed):
            return False
        owners = fed.owner_info() if fed.owners else {}
    else:
        owners = {}
    if p["id"] in owners or "delegation" in p:
        owner = owners.get(p["id"])
        if owner is None or "delegation" not in p:
            return False
        d = p["delegation"]
        from mc.fed import payload_of
        try:
            dp = payload_of(d)
        except Exception:
            return False
        good = (verifies(d, owner["jwks"]) and dp["iss"] == owner["sub"] and dp["sub"] == p["iss"]
                and dp["id"] == p["id"] and dp.get("exp", now) >= now)
        if not good:
            return False
        if p["id"] not in (fed.issuers or {}):
            return None
    return True


def verifier():
    return make_entity(eid("V"), KEY["V"], trust_anchors={eid(a): jwks(k) for a, k in ANCHORS.items()},
                       services=["entity_configuration", "entity_statement", "trust_mark_status"])


def verify(fe, c, tok):
    try:
        r = fe.function.trust_mark_verifier(
            trust_mark=tok, trust_anchor=eid(c["anchor"]) if c["anchor"] else "",
            entity_id=eid(c["entity_id"]) if c["entity_id"] else "")
    except Exception:
        return None
    return dict(r) if r else None


def compare(res, got, must, p, case, step=""):
    res.count("evaluations")
    res.count(f"verdict {must}")
    if got is not None:
        if must is False:
            bad = "accepted"
        elif got != p:
            bad = f"returned {got}"
        else:
            return True
    elif must:
        bad = "refused"
    else:
        return True
    dev = case if step else {k: v for k, v in case.items() if GOOD.get(k) != v}
    res.violation(f"{bad[:30]}:{json.dumps(dev, sort_keys=True)}{step}", f"{bad}: {p} {dev} {step}", case)
    return False


_warm = {}


def single(res, case):
    """On an entity that has seen everything good before, and in the thorough mode a fresh one"""
    Clock.reset()
    c = dict(GOOD, **case)
    fed = Fed(c["issuers"], c["owners"], c["anchor_ec"]).serve()
    k = digest([c["issuers"], c["owners"], c["anchor_ec"]])
    if k not in _warm:
        fe = _warm[k] = verifier()
        for iss in "TXO":
            verify(fe, dict(GOOD, iss=iss), mark(dict(GOOD, iss=iss), fed)[1])
    p, tok = mark(c, fed)
    must = judge(c, p, tok, fed)
    compare(res, verify(_warm[k], c, tok), must, p, case)
    if len(case) <= 1:
        compare(res, verify(verifier(), c, tok), must, p, case)
    if len(case) == 3:
        res.sample(case)
    res.states.add(digest(case))


# --------------------------------------------------------------------------------- status
STATUS = ["active", "this iat", "other iat", "inactive", "text", "none", "not found", "500", "garbage",
          "down", "no endpoint", "number", "list"]


def status(res, case):
    Clock.reset()
    c = dict(GOOD, **case["mark"])
    fed = Fed(c["issuers"], c["owners"], c["anchor_ec"]).serve()
    p, tok = mark(c, fed)
    good_iat = p.get("iat", 0)
    kind = case["status"]

    def answer(q):
        right = unquote(q.get("sub", "")) == p.get("sub") and unquote(
            q.get("trust_mark_id", "")) == p.get("id")
        if not right and "trust_mark" in q:
            right = q["trust_mark"] == tok
        if kind == "this iat":
            ok = right
        elif kind == "other iat":
            ok = right and q.get("iat") != str(good_iat) and "trust_mark" not in q
        else:
            ok = right and kind == "active"
        if ok:
            return 200, "application/json", json.dumps({"active": True})
        if kind in ("active", "this iat", "other iat", "not found"):
            return 404, "application/json", json.dumps({"error": "not_found"})
        if kind == "down":
            import requests
            raise requests.exceptions.ConnectionError("down")
        if kind == "500":
            return 500, "text/plain", "boom"
        body = {"inactive": {"active": False}, "text": {"active": "false"}, "none": {},
                "number": {"active": 0}, "list": []}.get(kind)
        return 200, "application/json", "<html/>" if kind == "garbage" else json.dumps(body)

    fed.status = answer
    fe = verifier()
    for n in range(2):
        for check in (True, False):
            must = judge(dict(c, anchor="A"), p, tok, fed)
            other = judge(dict(c, anchor="B"), p, tok, fed)
            if must is not other:
                must = None     # which of the anchors is used isn't said
            if check and must is not False and kind not in ("active", "this iat"):
                must = False
            if check and c["iss"] != "T":
                must = False
            try:
                if check:
                    got = fe.verify_trust_mark(tok)
                else:
                    got = fe.verify_trust_mark(tok, check_with_issuer=False)
            except Exception:
                got = None
            compare(res, dict(got) if got else None, must, p, case, f"check={check} round {n}")
    res.states.add(digest(case))


# ------------------------------------------------------------------------------ histories
OPS = ["old", "new", "rollover", "expel", "admit", "unlist", "list", ("time", 1500), ("time", 3603)]


def history(res, case):
    Clock.reset()
    fed = Fed({TM1: [eid("T")]}).serve()
    fe = verifier()
    when = {"key": -10**9, "in": -10**9, "listed": -10**9}
    c = dict(GOOD)
    HORIZON = 3600

    def ask(which, n):
        key = {"old": KEY["T"], "new": NEW_T}[which]
        now = int(Clock.now)
        p = {"iss": eid("T"), "sub": eid("S"), "id": TM1, "iat": T0 - 50, "ref": "x"}
        tok = sign(p, key, headers={"kid": KEYS[key].kid})
        current = key == fed.t_key
        sure = []
        for holds, changed in ((current, when["key"]), (not fed.expelled, when["in"]),
                               (fed.issuers[TM1] == [eid("T")], when["listed"])):
            # what was true until recently may still be in an unexpired statement
            sure.append(holds if now > changed + HORIZON else None)
        if which == "new" and NEW_T not in used:
            must = False
        else:
            must = False if False in sure else None if None in sure else True
        return compare(res, verify(fe, c, tok), must, p, case, f"step {n} {which}")

    used = {KEY["T"]}
    for n, op in enumerate(list(case["ops"]) + ["old", "new"]):
        if op in ("old", "new"):
            if not ask(op, n):
                return
            res.states.add(digest([case["ops"][:n], op]))
        elif op == "rollover":
            fed.t_key = NEW_T if fed.t_key == KEY["T"] else KEY["T"]
            used.add(fed.t_key)
            when["key"] = int(Clock.now)
        elif op in ("expel", "admit"):
            fed.expelled = op == "expel"
            when["in"] = int(Clock.now)
        elif op in ("unlist", "list"):
            fed.issuers = {TM1: [eid("T" if op == "list" else "X")]}
            when["listed"] = int(Clock.now)
        else:
            Clock.advance(op[1])


# the anchors' owners of the trust mark: two, the second with the name of the first in one variant
OWNERS = {"one": (OWNER, OWNER_KEY), "two": ("https://two.example.org", 12), "rekeyed": (OWNER, 13)}
DOPS = [("ask", "one", "A"), ("ask", "two", "A"), ("ask", "rekeyed", "A"), ("ask", "two", "B"),
        ("ask", "one", "B"), ("A", "one"), ("A", "two"), ("A", "rekeyed"), ("B", "one"), ("time", 3603)]
DEND = [("ask", o, a) for a in "AB" for o in OWNERS]


def delegated(res, case):
    """The anchors have different owners for the same trust mark, and change them"""
    Clock.reset()
    fed = Fed().serve()
    fed.owner_of = {"A": "one", "B": "two"}
    fe = verifier()
    when = {}       # anchor, owner -> when it last was
    for n, op in enumerate(list(case["dops"]) + DEND):
        now = int(Clock.now)
        if op[0] == "ask":
            sub, key = OWNERS[op[1]]
            d = sign({"iss": sub, "sub": eid("T"), "id": TM1, "iat": T0 - 50}, key,
                     headers={"typ": "trust-mark-delegation+jwt"})
            p = {"iss": eid("T"), "sub": eid("S"), "id": TM1, "iat": T0 - 50, "ref": "x", "delegation": d}
            tok = sign(p, KEY["T"])
            now_owner = fed.owner_of[op[2]] == op[1]
            recent = [o for (a, o), t in when.items() if a == op[2] and t + 3600 >= now]
            if now_owner:
                must = None if recent else True
            else:
                must = None if op[1] in recent else False
            if not compare(res, verify(fe, dict(GOOD, anchor=op[2]), tok), must, p, case, f"step {n} {op}"):
                return
            res.states.add(digest(["d", case["dops"][:n], op]))
        elif op[0] == "time":
            Clock.advance(op[1])
        else:
            if fed.owner_of[op[0]] != op[1]:
                when[(op[0], fed.owner_of[op[0]])] = now
                fed.owner_of[op[0]] = op[1]


def singles(depth):
    for n in range(depth + 1):
        for dims in itertools.combinations(NAMES, n):
            for vals in itertools.product(*(DIMS[d][1:] for d in dims)):
                yield dict(zip(dims, vals))


def statuses():
    marks = [{}, {"iss": "X"}, {"iss": "O"}, {"signer": "X"}, {"signer": "none"}, {"exp": 600},
             {"exp": -1}, {"id": TM2}, {"iat": False}, {"owners": TM1},
             {"owners": TM1, "issuers": {TM1: []}, "delegation": "good"},
             {"issuers": {TM1: [eid("X")]}}, {"sub": "other"}]
    for m in marks:
        for s in STATUS:
            yield {"mark": m, "status": s}


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            if n > 1 and ops[-1] in ("old", "new"):
                continue        # is what follows anyhow
            yield {"ops": ops}


def dhistories(depth):
    for n in range(depth + 1):
        for ops in itertools.product(DOPS, repeat=n):
            yield {"dops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "dops" in case:
            delegated(res, {"dops": [tuple(o) for o in case["dops"]]})
        elif "ops" in case:
            case = dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]])
            history(res, case)
        elif "status" in case:
            status(res, case)
        else:
            single(res, case)
    return res


def main():
    chk = Check("C14", "exploration", ["trust anchors don't issue trust marks themselves"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    dev, hist = (4, 5) if chk.thorough else (3, 4)
    ones = sorted(singles(dev), key=lambda c: digest([c.get("issuers"), c.get("owners"), c.get("anchor_ec")]))
    size = max(1, len(ones) // 96)
    chunks = [ones[i:i + size] for i in range(0, len(ones), size)]
    chunks += chunked(list(statuses()), 24) + chunked(list(histories(hist)), 64)
    chunks += chunked(list(dhistories(hist - 1)), 32)
    res = parallel(work, chunks)
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": f"all combinations of at most {dev} deviations from a good trust mark over 12 dimensions, "
                "13 trust marks x 13 status answers, and all histories of 9 operations up to the stated "
                "length followed by both marks; 10 operations on two anchors' owners up to one less, followed by "
                "all delegations; the entity has verified good marks before",
        "deviations": dev, "history_length": hist, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
