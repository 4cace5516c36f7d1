"""C01: which statement sequences are accepted as trust chains.

Every sequence over a pool of genuine, stale, misdirected and forged statements, up to a length
and a number of simultaneous defects, is given to the real chain verifier and compared with a
direct reading of the rule."""
import mc.env  # noqa
import copy
import itertools

from mc.env import Clock, T0
from mc.fed import PUB, b64, fresh_world, jwks, make_entity, sign
from mc.report import Check, Result, chunked, parallel

TA1, TA2, X = "https://ta1.example.org", "https://ta2.example.org", "https://x.example.org"
I, J, L, M = ("https://i.example.org", "https://j.example.org", "https://leaf.example.org",
              "https://other.example.org")
KEY = {TA1: 1, TA2: 2, I: 3, J: 4, L: 5, X: 6, M: 7}
SHORT = {TA1: "TA1", TA2: "TA2", I: "I", J: "J", L: "L", X: "X", M: "M"}
OBS = "https://obs.example.org"
HOUR = 3600

_pool = []


def stm(name, iss, sub, key=None, jwks_of=None, exp=HOUR, defect=None, tamper=None, **extra):
    """One statement of the pool: (name, token, payload, key that really signed or None)"""
    p = {"iss": iss, "sub": sub, "iat": T0 - 60}
    if exp is not None:
        p["exp"] = T0 + exp
    if jwks_of != "none":
        p["jwks"] = jwks(*(jwks_of if jwks_of is not None else [KEY[sub]]))
    p.update(extra)
    k = KEY[iss] if key is None else key
    if tamper is None:
        tok = sign(p, k)
        signer = k
    else:
        tok, p = tamper(p, k)
        signer = None
    _pool.append((name, tok, p, signer))


def alg_none(p, k):
    return f"{b64({'alg': 'none', 'typ': 'entity-statement+jwt'})}.{b64(p)}.", p


def hs256_pub(p, k):
    """the classical confusion: HMAC keyed with the public key"""
    import hashlib
    import hmac
    import json
    hd = b64({"alg": "HS256", "kid": PUB[k]["kid"], "typ": "entity-statement+jwt"})
    body = b64(p)
    mac = hmac.new(json.dumps(PUB[k], sort_keys=True).encode(), f"{hd}.{body}".encode(),
                   hashlib.sha256)
    return f"{hd}.{body}.{b64(mac.digest())}", p


def swapped_body(p, k):
    """a genuine signature over another body"""
    good = sign(dict(p, metadata={"openid_relying_party": {"client_name": "genuine"}}), k)
    h, _, s = good.split(".")
    return f"{h}.{b64(p)}.{s}", p


def cut_sig(p, k):
    h, b, _ = sign(p, k).split(".")
    return f"{h}.{b}.", p


def wrong_key_same_kid(rogue):
    def f(p, k):
        from cryptojwt.jwk.rsa import RSAKey
        from cryptojwt.jws.jws import JWS
        import json
        from mc.fed import PRIV
        j = dict(PRIV[rogue], kid=PUB[k]["kid"])
        rk = RSAKey(**j)
        rk.deserialize()
        return JWS(json.dumps(p, sort_keys=True), alg="RS256").sign_compact([rk]), p
    return f


def build_pool():
    if _pool:
        return _pool
    # a genuine federation
    stm("TA1>I", TA1, I)
    stm("TA1>J", TA1, J)
    stm("TA2>J", TA2, J)
    stm("TA1>L", TA1, L)
    stm("I>L", I, L)
    stm("J>L", J, L)
    stm("I>J", I, J)
    stm("J>M", J, M)
    stm("EC(L)", L, L)
    stm("EC(M)", M, M)
    stm("EC(I)", I, I)
    stm("EC(TA1)", TA1, TA1)
    # a federation nobody configured
    stm("X>L", X, L)
    stm("X>I", X, I)
    stm("EC(X)", X, X)
    # past their time
    stm("TA1>I expired", TA1, I, exp=-HOUR)
    stm("I>L expired", I, L, exp=-HOUR)
    stm("EC(L) expired", L, L, exp=-HOUR)
    stm("TA1>I just expired", TA1, I, exp=-1)
    stm("I>L expired after long", I, L, exp=-20, iat=T0 - 10**6)
    stm("EC(L) expired after long", L, L, exp=-HOUR, iat=T0 - 10**7)
    stm("I>L short", I, L, exp=100)
    stm("EC(L) short", L, L, exp=50)
    # not signed by who it says
    stm("TA1>L by X", TA1, L, key=6)
    stm("TA1>I samekid", TA1, I, tamper=wrong_key_same_kid(6))
    stm("I>L by L", I, L, key=5)
    stm("I>L samekid", I, L, tamper=wrong_key_same_kid(5))
    stm("EC(L) by X", L, L, key=6)
    stm("EC(L) by X own", L, L, key=6, jwks_of=[6])
    stm("I>L swapped", I, L, tamper=swapped_body)
    stm("EC(L) swapped", L, L, tamper=swapped_body)
    stm("TA1>I none", TA1, I, tamper=alg_none)
    stm("EC(L) none", L, L, tamper=alg_none)
    stm("TA1>I hs", TA1, I, tamper=hs256_pub)
    stm("I>L hs", I, L, tamper=hs256_pub)
    stm("EC(L) cut", L, L, tamper=cut_sig)
    # someone else's keys vouched for / keys for a trust anchor vouched for by a subordinate
    stm("I>J rogue key", I, J, jwks_of=[6])
    stm("J>L by rogue key", J, L, key=6)
    stm("I>TA2 rogue key", I, TA2, jwks_of=[6])
    stm("TA2>L by rogue key", TA2, L, key=6)
    # about someone else
    stm("L about M", L, M)
    stm("M about L", M, L)
    stm("I about I rogue key", I, I, jwks_of=[6])
    # incomplete
    stm("I>L no jwks", I, L, jwks_of="none")
    stm("I>L no exp", I, L, exp=None)
    return _pool


ANCHOR_KEYS = {TA1: {1}, TA2: {2}}


def keyset(payload):
    return {i for i in range(len(PUB)) for k in payload.get("jwks", {}).get("keys", [])
            if k["n"] == PUB[i]["n"]}


def defects(seq, anchor_keys=None, now=T0):
    """How the sequence breaks the rule: a list of reasons (empty: must be accepted)."""
    bad = []
    anchor_keys = ANCHOR_KEYS if anchor_keys is None else anchor_keys
    last = len(seq) - 1
    for i, (name, tok, p, signer) in enumerate(seq):
        if i == 0:
            if p["iss"] not in anchor_keys:
                bad.append("anchor")
                allowed = set()
            else:
                allowed = anchor_keys[p["iss"]]
        else:
            prev = seq[i - 1][2]
            if prev["sub"] != p["iss"]:
                bad.append(f"link{i}")
            allowed = keyset(prev)
        if signer is None or signer not in allowed:
            bad.append(f"sig{i}")
        if "exp" not in p:
            bad.append(f"noexp{i}")
        elif p["exp"] < now:
            bad.append(f"exp{i}")
        if i < last and "jwks" not in p:   # the last one has no one to vouch for
            bad.append(f"nojwks{i}")
    if seq and seq[-1][2]["iss"] != seq[-1][2]["sub"]:
        bad.append("no configuration")
    return bad


def observer():
    fresh_world()
    return make_entity(OBS, 0, trust_anchors={TA1: jwks(1), TA2: jwks(2)})


def run_one(fe, seq):
    try:
        tc = fe.function.verifier([s[1] for s in seq])
    except Exception as err:
        return None, repr(err)
    return tc, None


def describe(seq):
    return [s[0] for s in seq]


def compare(seq, bad, tc, err):
    """-> None or what is wrong"""
    if bad:
        if tc:
            return "accepted", f"accepted although {bad}"
        return None
    if not tc:
        return "rejected", f"a flawless chain was refused ({err})"
    p = [s[2] for s in seq]
    if tc.anchor != p[0]["iss"]:
        return "anchor", f"reported anchor {tc.anchor}"
    if tc.exp != min(x["exp"] for x in p):
        return "exp", f"reported expiry {tc.exp - T0}, should be {min(x['exp'] for x in p) - T0}"
    if list(tc.iss_path) != [x["iss"] for x in reversed(p)]:
        return "path", f"reported path {tc.iss_path}"
    got = [dict(x) for x in tc.verified_chain]
    for g, w in zip(got, p):
        if {k: g.get(k) for k in w} != w:
            return "content", "the verified statements differ from what was signed"
    if len(got) != len(p):
        return "content", "statements were lost"
    return None


def sequences(maxlen, bound, longlen):
    """All sequences up to maxlen; from there to longlen those with at most `bound` defects."""
    pool = build_pool()
    idx = range(len(pool))

    def count(prefix):
        # how it ends isn't a matter of what it begins with
        return len([d for d in defects([pool[i] for i in prefix]) if d != "no configuration"])

    for n in range(1, longlen + 1):
        if n <= maxlen:
            yield from itertools.product(idx, repeat=n)
            continue

        def grow(prefix):
            if len(prefix) == n:
                if count(prefix) <= bound:
                    yield tuple(prefix)
                return
            if prefix:
                if count(prefix) > bound:
                    return
            for i in idx:
                yield from grow(prefix + [i])
        yield from grow([])


def work(chunk):
    res = Result()
    pool = build_pool()
    Clock.reset()
    fe = observer()
    for ids in chunk:
        seq = [pool[i] for i in ids]
        bad = defects(seq)
        tc, err = run_one(fe, seq)
        res.count("sequences")
        res.count("accepted" if tc else "refused")
        if not bad:
            res.count("flawless")
            res.sample({"sequence": describe(seq), "verdict": "accepted" if tc else "refused"})
        wrong = compare(seq, bad, tc, err)
        if wrong:
            tc2, err2 = run_one(observer(), seq)
            how = "fresh" if compare(seq, bad, tc2, err2) else "history"
            names = ",".join(describe(seq)).replace(" ", "_")
            res.violation(f"{wrong[0]}:{how}:{names}", wrong[1], {"ids": list(ids),
                                                                 "sequence": describe(seq)})
    return res


def main():
    chk = Check("C01", "exploration", [
        "RS256 as implemented by cryptojwt/cryptography is trusted to verify correctly",
        "statement sequences are drawn from the pool listed in checks/c01.py",
    ])
    if chk.replay:
        res = work([chk.replay["case"]["ids"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    build_pool()
    maxlen, bound, longlen = (4, 2, 6) if chk.thorough else (3, 2, 5)
    seqs = list(sequences(maxlen, bound, longlen))
    chunks = chunked(seqs, 64)
    res = parallel(work, chunks)
    chk.finish(res, {
        "evaluations": res.counts["sequences"],
        "distinct_nontrivial": len(seqs),
        "rule": f"all sequences over {len(_pool)} statements up to length {maxlen}, and those with "
                f"at most {bound} defects up to length {longlen}; each distinct, each decided by "
                "the real verifier and compared with the rule",
        "exhaustive": True,
    })


if __name__ == "__main__":
    main()
