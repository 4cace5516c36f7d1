"""C26: what clients are told about trust marks, over the wire, is what their issuers have issued.

All histories, up to a depth, of asking two real trust mark issuers for trust marks, self-signing some, issuers
leaving and joining the federation and time passing; after each every question about every trust mark is asked."""
import mc.env  # noqa
import itertools
import json

from mc.env import Clock
from mc.fed import fresh_world, header_of, jwks, make_entity, payload_of, serve_entity, sign, verifies
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel

KEY = {"A": 1, "T": 2, "U": 3, "W": 4, "V": 5, "X": 6}
ID1, ID2, ID3, OWN, OWN2 = (f"https://mark.example.com/{i}" for i in ("1", "2", "3", "own", "own2"))
SPEC = {"T": {ID1: {"lifetime": 600}, ID2: {"ref": "https://ref.example.com"}}, "U": {ID1: {}}}
SELF = {OWN: {"ref": "https://own.example.com"}, OWN2: {}}
SELF_LIFE = 86400 * 30
SERVICES = ["entity_configuration", "entity_statement", "list", "trust_mark_status", "trust_mark_list", "trust_mark"]
LIFE = 86400        # of what the superior says
OPS = [("get", "W", "T", ID1), ("get", "W", "U", ID1), ("get", "W", "T", ID2), ("get", "V", "T", ID1),
       ("get", "W", "T", ID3), ("get", "W", "U", ID2), ("get", "W", "V", ID1), ("self", OWN), ("self", OWN2),
       ("self", ID1), ("leave", "T"), ("join", "T"), ("time", 100), ("time", 650), ("time", 90000),
       ("time", 31 * 86400)]

AFTER = [("get", "W", "T", ID1), ("get", "V", "U", ID1)]


class Fed26:
    def __init__(self):
        Clock.reset()
        self.w = fresh_world()
        members = {n: {"jwks": jwks(KEY[n]), "authority_hints": [eid("A")]} for n in "TUWV"}
        self.members = members
        self.e = {"A": make_entity(
            eid("A"), KEY["A"], endpoints=["entity_configuration", "fetch", "list"],
            subordinate={eid(n): m for n, m in members.items()},
            preference={"organization_name": "A", "trust_mark_issuers": {
                ID1: [eid("T"), eid("U")], ID2: [eid("T")], OWN: [eid("W")], OWN2: [eid("X")]}})}
        common = dict(authority_hints=[eid("A")], trust_anchors={eid("A"): jwks(KEY["A"])}, services=SERVICES)
        for n in "TU":
            self.e[n] = make_entity(eid(n), KEY[n], endpoints=["entity_configuration", "fetch"], trust_mark_entity={
                "class": "fedservice.trust_mark_entity.entity.TrustMarkEntity", "kwargs": {
                    "trust_mark_specification": SPEC[n],
                    "endpoint": {k: {"path": f"marks/{k}", "class": f"fedservice.trust_mark_entity.server.{k}.{c}",
                                     "kwargs": {}}
                                 for k, c in [("trust_mark", "TrustMark"), ("trust_mark_list", "TrustMarkList"),
                                              ("trust_mark_status", "TrustMarkStatus")]}}}, **common)
        self.e["W"] = make_entity(eid("W"), KEY["W"], endpoints=["entity_configuration"], self_signed_trust_mark_entity={
            "class": "fedservice.trust_mark_entity.entity.SelfSignedTrustMarkEntity",
            "kwargs": {"trust_mark_specification": SELF}}, **common)
        self.e["V"] = make_entity(eid("V"), KEY["V"], endpoints=["entity_configuration"], **common)
        for e in self.e.values():
            serve_entity(self.w, e)
        self.issued = []        # issuer, id, sub, iat, exp, token
        self.gone = {}          # issuer -> when
        self.self_signed = []

    def in_fed(self, n):
        """None: can't tell, something said earlier might be remembered"""
        if n not in self.gone:
            return True
        return None if Clock.now <= self.gone[n] + LIFE + 1 else False

    def url(self, n, what):
        return f"{eid(n)}/marks/{what}"

    def active(self, iss, tid, sub, iat=None):
        for i, t, s, at, exp, _ in reversed(self.issued):
            if (i, t, s) == (iss, tid, sub) and iat in (None, at):
                return exp is None or Clock.now <= exp
        return False


def ask(e, service, **kw):
    try:
        r = e.do_request(service, **kw)
        if r is None or (not isinstance(r, list) and "error" in r):
            return None
        return r
    except Exception:
        return None


def step(f, op):
    if op[0] == "time":
        Clock.advance(op[1])
        return None
    Clock.advance(1)
    now = int(Clock.now)
    if op[0] == "leave":
        f.e["A"].server.subordinate.pop(eid(op[1]), None)
        f.gone.setdefault(op[1], now)
    elif op[0] == "join":
        f.e["A"].server.subordinate[eid(op[1])] = f.members[op[1]]
        f.gone.pop(op[1], None)
    elif op[0] == "self":
        try:
            tok = f.e["W"].server.self_signed_trust_mark_entity(op[1])
        except Exception as err:
            return None if op[1] not in SELF else f"refused {err!r}"
        want = {"iss": eid("W"), "sub": eid("W"), "id": op[1], "iat": now, "exp": now + SELF_LIFE,
                **SELF.get(op[1], {})}
        if op[1] not in SELF or payload_of(tok) != want or not verifies(tok, jwks(KEY["W"])):
            return f"self-signed {payload_of(tok)}"
        f.self_signed.append((op[1], now + SELF_LIFE, tok))
    elif op[0] == "get":
        _, who, iss, tid = op
        n_log = len(f.w.log)
        got = ask(f.e[who], "trust_mark", request_args={"trust_mark_id": tid, "sub": eid(who)}, entity_id=eid(iss))
        asked = [u for u in f.w.log[n_log:] if u.startswith(f.url(iss, "trust_mark"))]
        known = tid in SPEC.get(iss, {})
        if got is None:
            if known and f.in_fed(iss):
                return "no trust mark"
            if known and asked:     # it was nevertheless issued
                f.issued.append((iss, tid, eid(who), now, exp_of(iss, tid, now), None))
            return None
        if not known or f.in_fed(iss) is False:
            return f"got {got}"
        want = {k: v for k, v in SPEC[iss][tid].items() if k != "lifetime"}
        want.update({"iss": eid(iss), "sub": eid(who), "id": tid, "iat": now})
        exp = exp_of(iss, tid, now)
        if exp:
            want["exp"] = exp
        tok = getattr(got, "_jws", None)
        if {k: v for k, v in got.items()} != want:
            return f"got {got}, not {want}"
        if not tok or payload_of(tok) != want or not verifies(tok, jwks(KEY[iss])):
            return f"the trust mark {tok}"
        f.issued.append((iss, tid, eid(who), now, exp, tok))
    return None


def exp_of(iss, tid, now):
    life = SPEC[iss][tid].get("lifetime")
    return now + life if life else None


def judged(got, must, what):
    if must is False and got:
        return f"{what} is {got}"
    if must is True and not got:
        return f"{what} is not"
    return None


def observe(res, f):
    asking = f.e["V"]

    def status(url, **args):
        res.count("answers checked")
        r = ask(asking, "trust_mark_status", request_args=args, **({"fetch_endpoint": url} if url else {}))
        return bool(r is not None and r.get("active") is True)

    iats = sorted({i[3] for i in f.issued})
    for iss in "TU":
        for tid in (ID1, ID2, ID3):
            for who in "WVX":
                if status(f.url(iss, "trust_mark_status"), trust_mark_id=tid, sub=eid(who)) != f.active(
                        iss, tid, eid(who)):
                    return f"active at {iss}: {tid} of {who}"
                for iat in iats:
                    if status(f.url(iss, "trust_mark_status"), trust_mark_id=tid, sub=eid(who), iat=iat) != f.active(
                            iss, tid, eid(who), iat):
                        return f"active at {iss}: {tid} of {who} issued {iat}"
            want = sorted(eid(s) for s in "WV" if f.active(iss, tid, eid(s)))
            got = ask(asking, "trust_mark_list", request_args={"trust_mark_id": tid},
                      fetch_endpoint=f.url(iss, "trust_mark_list"))
            res.count("answers checked")
            if sorted(got or []) != want:
                return f"list at {iss} of {tid}: {got}, not {want}"
    marks = [(i, t, s, at, exp, tok) for i, t, s, at, exp, tok in f.issued if tok]
    for iss, tid, sub, iat, exp, tok in marks:
        p = payload_of(tok)
        valid = exp is None or Clock.now <= exp
        member = f.in_fed(iss)
        kid = header_of(tok).get("kid")
        for name, t, good in (("trust mark", tok, valid),
                              ("forged", sign(p, KEY["V"], headers={"kid": kid}), False),
                              ("never issued", sign(dict(p, iat=iat - 7), KEY[iss], headers={"kid": kid}), False),
                              ("another's", sign(dict(p, iss=eid("X")), KEY[iss], headers={"kid": kid}), False)):
            for other in "TU":
                bad = judged(status(f.url(other, "trust_mark_status"), trust_mark=t), good and other == iss,
                             f"active at {other}: {name} {p}")
                if bad:
                    return bad
            must = good and member
            bad = judged(status("", trust_mark=t), must, f"active: {name} {p}")
            if bad:
                return bad
            for check in (True, False):
                res.count("answers checked")
                must = good and member
                if not check and name == "never issued":
                    must = valid and member
                try:
                    got = asking.verify_trust_mark(t, check_with_issuer=check)
                except Exception as err:
                    got = None
                    if must:
                        return f"verification of {name} {p}: {err!r}"
                bad = judged(got, must, f"verified ({check}): {name} {p}")
                if bad or (got and {k: v for k, v in got.items()} != payload_of(t)):
                    return bad or f"verified {name} {p} became {got}"
    for tid, exp, tok in f.self_signed:
        must = Clock.now <= exp and tid == OWN
        for check in (True, False):
            res.count("answers checked")
            try:
                got = asking.verify_trust_mark(tok, check_with_issuer=check)
            except Exception:
                got = None
            # there's nobody to check with
            bad = judged(got, must and not check, f"verified ({check}): self-signed {tid}")
            if bad:
                return bad
    ec = payload_of(f.e["W"].server.endpoint["entity_configuration"].process_request({})["response"])
    if ec.get("trust_marks", []) != [t for _, _, t in f.self_signed]:
        return f"the entity configuration has {len(ec.get('trust_marks', []))} trust marks"
    return None


def history(res, ops):
    f = Fed26()
    for n, op in enumerate(ops):
        res.count("transitions")
        bad = step(f, op)
        if bad:
            break
        # what's asked in between ought not to matter
        if n == len(ops) - 1 or op[0] in ("leave",):
            bad = observe(res, f)
            if bad:
                break
        res.states.add(digest([[i[:5] for i in f.issued], [s[:2] for s in f.self_signed], f.gone, Clock.now]))
    for op in AFTER if not bad else ():
        bad = bad or step(f, op)
    res.count("evaluations")
    if bad:
        case = {"ops": ops}
        res.violation(f"{bad[:30]}:{json.dumps(ops)}", f"{bad[:300]} after {ops}", case)


def histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            if ops[-1][0] == "leave" and n > 1 and not any(o[0] == "get" for o in ops):
                continue
            yield ops


def work(chunk):
    res = Result()
    for ops in chunk:
        history(res, [tuple(o) for o in ops])
    return res


def main():
    chk = Check("C26", "exploration", ["the trust anchor's statements are used no longer than they live; whether they "
                                       "are remembered until then is left open"])
    if chk.replay:
        res = work([chk.replay["case"]["ops"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 4 if chk.thorough else 3
    res = parallel(work, chunked(list(histories(depth)), 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": f"all histories of {len(OPS)} operations up to the stated length; after each all questions (status in "
                "three ways, lists, verification with and without the issuer) about all trust marks, forged ones and "
                "strangers; distinct are the states of the issuers and the clock",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
