"""C19: entities whose configuration is kept in files are what the files say, while running and after a restart.

All histories, up to a depth, of edits of the files (subordinates, authority hints, trust anchors, trust marks) of
a small federation of real entities built from configuration, and restarts; after each what every entity says and
which trust chains are found is compared with a reading of the files."""
import mc.env  # noqa
import itertools
import json
import os
import shutil
import tempfile

from checks import c15, c17
from mc.env import Clock
from mc.fed import fresh_world, jwks, key_conf, payload_of, serve_entity, sign
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel

KEY = {"A": 1, "B": 7, "M": 2, "L": 3, "V": 5, "X": 6}
SUPERIORS = "ABM"
FILES = [("sub", "A", "M"), ("sub", "A", "L"), ("sub", "M", "L"), ("sub", "B", "M"), ("hint", "L", "A"),
         ("hint", "L", "M"), ("hint", "M", "A"), ("hint", "M", "B"), ("anchor", "V", "A"), ("anchor", "V", "B"),
         ("mark", "L", 1)]
CHANGES = FILES + [("wrong", "A", "L"), ("wrong", "M", "L"), ("wrong", "V", "A"), ("policy", "A", "M")]
OPS = CHANGES + [("restart",)]
CLASSES = {"dir": {"class": "idpyoidc.storage.abfile.AbstractFileSystem",
                   "kwargs": {"key_conv": "idpyoidc.util.Base64", "value_conv": "idpyoidc.util.JSON"}},
           "lines": {"class": "idpyoidc.storage.listfile.ReadOnlyListFile", "kwargs": {}}}
MARK = sign({"iss": eid("X"), "sub": eid("L"), "id": "https://mark.example.com/1", "iat": 1}, KEY["X"])
POLICY = {"federation_entity": {"contacts": {"value": ["info@example.com"]}}}


class Fed19:
    def __init__(self, tmp, on):
        Clock.reset()
        self.tmp, self.n = tmp, 0
        self.on = set()
        self.w = fresh_world()
        self.e = {}
        for op in on:
            self.change(op)
        self.restart()

    def path(self, *p):
        return os.path.join(self.tmp, *p)

    def write(self, path, text):
        from filelock import FileLock   # as the ones reading it
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fp:
            fp.write(text)
        self.n += 1
        os.utime(path, ns=(10 ** 18 + self.n * 10 ** 9,) * 2)

    def change(self, op):
        """Toggle what's in a file"""
        from idpyoidc.util import Base64
        self.on ^= {op}
        kind, who, what = op
        if kind in ("sub", "wrong", "policy") and who in SUPERIORS:
            path = self.path(who, "subordinates", Base64().serialize(eid(what)))
            if ("sub", who, what) in self.on:
                info = {"jwks": jwks(KEY["X" if ("wrong", who, what) in self.on else what]),
                        "authority_hints": [eid(who)]}
                if ("policy", who, what) in self.on:
                    info["metadata_policy"] = POLICY
                self.write(path, json.dumps(info))
            elif os.path.exists(path):
                os.unlink(path)
        elif kind == "hint":
            self.write(self.path(who, "authority_hints"), "".join(
                eid(w) + "\n" for k, n, w in FILES if k == "hint" and n == who and (k, n, w) in self.on))
        elif kind == "mark":
            self.write(self.path(who, "trust_marks"), MARK + "\n" if op in self.on else "")
        elif kind in ("anchor", "wrong"):
            path = self.path(who, "trust_anchors", Base64().serialize(eid(what)))
            if ("anchor", who, what) in self.on:
                self.write(path, json.dumps(jwks(KEY["X" if ("wrong", who, what) in self.on else what])))
            elif os.path.exists(path):
                os.unlink(path)

    def spec(self, kind, who, name):
        spec = json.loads(json.dumps(CLASSES[kind]))
        spec["kwargs"]["fdir" if kind == "dir" else "file_name"] = self.path(who, name)
        return spec

    def restart(self):
        from fedservice.utils import make_federation_combo
        self.confs = {}
        for n in "ABMLV":
            os.makedirs(self.path(n), exist_ok=True)
            conf = {"entity_id": eid(n), "key_config": key_conf(KEY[n]), "preference": {"organization_name": n},
                    "endpoints": ["entity_configuration"]}
            if n in SUPERIORS:
                conf["endpoints"] += ["fetch", "list"]
                conf["subordinate"] = self.spec("dir", n, "subordinates")
            if n in "ML":
                conf["authority_hints"] = self.spec("lines", n, "authority_hints")
            if n in "MLV":
                conf["trust_anchors"] = self.spec("dir", n, "trust_anchors")
            if n == "L":
                conf["trust_marks"] = self.spec("lines", n, "trust_marks")
            self.confs[n] = json.dumps(conf)
            self.e[n] = make_federation_combo(**conf)
            serve_entity(self.w, self.e[n])

    # ------------------------------------------------------------------------- the oracle
    def has(self, *op):
        return op in self.on

    def step(self, sup, sub):
        return self.has("hint", sub, sup) and self.has("sub", sup, sub) and not self.has("wrong", sup, sub)

    def chains(self, n):
        ta = [a for a in "AB" if self.has("anchor", "V", a) and not self.has("wrong", "V", a)]
        res = []
        ways = {"M": [["M", a] for a in "AB"], "L": [["L", "A"], ["L", "M", "A"], ["L", "M", "B"]]}[n]
        for way in ways:
            if way[-1] in ta and all(self.step(b, a) for a, b in zip(way, way[1:])):
                res.append([eid(x) for x in way])
        return sorted(res)


def call(endp, req):
    try:
        return endp.process_request(endp.parse_request(req) if req else {})
    except Exception as err:
        return {"error": repr(err)}


def observe(res, f, fresh, removed):
    """fresh: just restarted; removed: entries whose files were removed while running"""
    for n in SUPERIORS:
        server = f.e[n].server
        subs = sorted(s for k, s0, s in FILES if k == "sub" and s0 == n and f.has(k, s0, s))
        res.count("answers checked")
        for s in "MLBX":
            if s == n:
                continue
            got = call(server.endpoint["fetch"], {"iss": eid(n), "sub": eid(s)})
            if s not in subs:
                if "error" not in got:
                    return f"{n} states about {s}"
                continue
            if "error" in got:
                return f"{n} does not know {s}: {got}"
            p = payload_of(got["response_msg"])
            if p["jwks"] != jwks(KEY["X" if f.has("wrong", n, s) else s]) or \
                    p.get("metadata_policy") != (POLICY if f.has("policy", n, s) else None) or \
                    (p["iss"], p["sub"]) != (eid(n), eid(s)):
                return f"{n} says {p} about {s}"
        for _ in range(4):
            got = call(server.endpoint["list"], {})
            if "error" not in got:
                break
        if "error" in got:
            return f"{n} doesn't list: {got}"
        if sorted(json.loads(got["response_msg"])) != [eid(s) for s in subs]:
            return f"{n} lists {got}, not {subs}"
    for n in "ML":
        res.count("answers checked")
        try:
            p = payload_of(f.e[n].server.endpoint["entity_configuration"].process_request({})["response"])
        except Exception as err:
            return f"no entity configuration of {n}: {err!r}"
        hints = [eid(w) for k, m, w in FILES if k == "hint" and m == n and f.has(k, m, w)]
        if (p.get("authority_hints") or []) != hints:
            return f"{n}'s authority hints are {p.get('authority_hints')}, not {hints}"
        marks = [MARK] if n == "L" and f.has("mark", "L", 1) else []
        if (p.get("trust_marks") or []) != marks:
            return f"{n}'s trust marks are {p.get('trust_marks')}"
    for n in "ML":
        res.count("answers checked")
        from fedservice.entity.function import get_verified_trust_chains
        try:
            chains = get_verified_trust_chains(f.e["V"], eid(n))
        except Exception as err:
            if fresh:
                return f"looking for trust chains of {n}: {err!r}"
            continue
        got = sorted(c.iss_path for c in chains)
        want = f.chains(n)
        if fresh and got != want:
            return f"trust chains of {n}: {got}, not {want}"
        # what is remembered may be used until it expires
        if not fresh:
            ta = [eid(a) for a in "AB" if f.has("anchor", "V", a) and not f.has("wrong", "V", a)]
            for c in chains:
                if c.anchor not in ta:
                    return f"trust chain of {n} to {c.anchor}"
                if removed is not None and c.iss_path not in want:
                    return f"trust chain of {n}: {c.iss_path}"
        for c in chains:
            fe = c.metadata.get("federation_entity", {})
            pol = f.has("policy", "A", "M") and c.iss_path[-2:] == [eid("M"), eid("A")]
            if fresh and (fe.get("organization_name") != n or ("contacts" in fe) != pol):
                return f"metadata of {n} by {c.iss_path}: {fe}"
    return None


def history(res, case):
    tmp = tempfile.mkdtemp(prefix="c19.")
    try:
        f = Fed19(tmp, FILES if case["start"] == "all" else [])
        bad = None
        ops = [tuple(o) for o in case["ops"]]
        for n, op in enumerate(ops):
            res.count("transitions")
            if op[0] == "restart":
                f.restart()
            else:
                f.change(op)
            if n == len(ops) - 1:
                bad = observe(res, f, op[0] == "restart", None)
                where = "running"
                if not bad:
                    Clock.advance(90000)
                    bad = observe(res, f, False, True)
                    where = "later"
                if not bad:
                    f.restart()
                    bad = observe(res, f, True, None)
                    where = "restarted"
            elif case.get("watch"):
                bad = observe(res, f, op[0] == "restart", None)
                where = f"step {n}"
            if bad:
                res.violation(f"{bad[:30]}:{json.dumps(case)}", f"{bad[:300]} ({where}) {case}", case)
                return
            res.states.add(digest([sorted(map(str, f.on)), n, case["start"]]))
        res.count("evaluations")
    finally:
        shutil.rmtree(tmp)


def histories(depth):
    for start in ("all", "none"):
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                if len(set(ops)) < n - 1:
                    continue
                for watch in ([False, True] if n > 1 else [True]):
                    yield {"start": start, "ops": ops, "watch": watch}


PARTIES = ("openid_relying_party", "oauth_client", "openid_provider", "oauth_authorization_server")
CONTENTS = [(h, m) for h in ("", "A", "AM") for m in (0, 1)]


def party(which):
    """An entity, and a function that makes it register, or register someone"""
    if which in c15.KINDS:
        typ = c15.KINDS[which]
        fed = c15.Fed({"C": "A"}, typ)
        fed.serve(fresh_world())
        s = c15.Server(which, "A")

        def said():
            now = int(Clock.now)
            return s.register(sign({
                "iss": eid("C"), "sub": eid("C"), "aud": c15.ME, "iat": now, "exp": now + 300,
                "jwks": jwks(c15.KEY["C"]), "authority_hints": [eid("A")],
                "metadata": {typ: c15.client_md(typ)}}, c15.KEY["C"]))
        return s.combo["federation_entity"].context, said
    fresh_world()
    c = c17.Client(which, "A", "A")
    return c.combo["federation_entity"].context, lambda: c.service.get_request_parameters(
        request_args={}, request_body_type="jose")["body"]


def registering(res, case):
    """What's said when registering"""
    Clock.reset()
    tmp = tempfile.mkdtemp(prefix="c19.")
    try:
        context, said = party(case["party"])
        now = {}
        for n, (hints, marks) in enumerate(case["contents"]):
            values = {"authority_hints": [eid(h) for h in hints], "trust_marks": [MARK] * marks}
            for what, val in values.items():
                now[what] = val
                form = case[what]
                if form == "list":
                    setattr(context, what, list(val))
                elif form == "file":
                    with open(os.path.join(tmp, what), "w") as fp:
                        json.dump(val, fp)
                    setattr(context, what, os.path.join(tmp, what))
                elif n == 0:
                    setattr(context, what, lambda what=what: list(now[what]))
            res.count("transitions")
            res.count("answers checked")
            try:
                p = payload_of(said())
            except Exception as err:
                p = None
                bad = f"says nothing: {err!r}"
            if p is not None:
                bad = [f"{what} {p.get(what)}" for what, val in values.items() if (p.get(what) or []) != val]
            if bad:
                res.violation(f"registering:{json.dumps(case)}", f"{case['party']} with {values} kept as {case}: {bad}"[:600],
                              case)
                return
        res.count("evaluations")
        res.states.add(digest(case))
    finally:
        shutil.rmtree(tmp)


def registrations():
    for p in PARTIES:
        for fh, fm in itertools.product(("list", "file", "callable"), repeat=2):
            for seq in itertools.product(CONTENTS, repeat=2):
                yield {"party": p, "authority_hints": fh, "trust_marks": fm, "contents": seq}


REFERRED = {"a.json": '{"x": ["file:a.json", 1]}', "b.json": '["https://a.example.com"]', "c.py": "c = 1\n"}


def values(depth):
    """Configuration values: plain ones, references, and lists and dictionaries of up to two of them"""
    yield from ("plain", 7, None, "profile:a.json")
    yield from ("file:" + f for f in [*REFERRED, "none.json"])
    if depth:
        inner = list(values(depth - 1))
        yield from ([], {})
        for a in inner:
            yield from ([a], {"k": a})
        for a, b in itertools.product(inner, list(values(0))):
            yield from ([a, b], [b, a], {"k": a, "l": b})


def reading(val, tmp):
    if isinstance(val, str) and val.startswith("file:"):
        name = val[len("file:"):]
        if name not in REFERRED:
            return None
        return json.loads(REFERRED[name]) if name.endswith(".json") else REFERRED[name]
    if isinstance(val, dict):
        return {k: reading(v, tmp) for k, v in val.items()}
    if isinstance(val, list):
        return [reading(v, tmp) for v in val]
    return val


def references(res, case):
    """Values in the configuration that are kept in files of their own"""
    from fedservice.utils import load_values_from_file
    tmp = tempfile.mkdtemp(prefix="c19.")
    try:
        for name, text in REFERRED.items():
            with open(os.path.join(tmp, name), "w") as fp:
                fp.write(text)
        todo = list(values(case["references"]))
        for val in todo[case["part"]::case["parts"]] if "value" not in case else [case["value"]]:
            text = json.dumps({"one": val, "two": {"three": val}})
            conf = json.loads(text.replace('"file:', f'"file:{tmp}/'))
            want = reading(json.loads(text), tmp)
            got = load_values_from_file(conf)
            res.count("configurations loaded")
            if json.dumps(got) != json.dumps(want):
                res.violation(f"references:{text}", f"{text} is loaded as {json.dumps(got)[:300]}", dict(case, value=val))
    finally:
        shutil.rmtree(tmp)


def work(chunk):
    res = Result()
    for case in chunk:
        (registering if "party" in case else references if "references" in case else history)(res, case)
    return res


def main():
    chk = Check("C19", "exploration", ["what the storage classes of idpyoidc do with files is part of what's checked; "
                                       "files get a later time of modification whenever they're changed",
                                       "a removed subordinate makes the storage class fail once when listing"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 3 if chk.thorough else 2
    res = parallel(work, chunked(list(histories(depth)) + list(registrations()) + [
        {"references": 2, "part": n, "parts": 8} for n in range(8)], 128))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": f"all histories of {len(OPS)} edits and restarts up to the stated length, from nothing and from a "
                "complete federation, with and without the entities being asked in between; everything said and "
                "found is compared with the files right away, a day later and after a restart; and what clients "
                "and servers of all kinds say when registering, for authority hints and trust marks kept in 3 ways; references to files anywhere in a "
                "configuration up to depth 4",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
