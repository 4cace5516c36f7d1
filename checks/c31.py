"""C31: explicit registration end to end: a client asks as what it is at that moment, is registered and
takes in the answer precisely when chains vouch for both, and what it then goes by is what was registered.

Real relying parties and OAuth clients (three placements of the service) and real servers in one
federation: all federations x anchors x priorities x policies x trust marks, and all histories of
registrations, changes of the client's configuration, expulsions and passing time."""
import mc.env  # noqa
import itertools
import json

from checks.c15 import KEY, STRUCT, Fed, Server, norm, wrong
from checks.c17 import ME, SERVER, Client, hints_for
from mc.env import Clock, T0
from mc.fed import fresh_world, jwks, payload_of, serve_entity, sign, verifies
from mc.graph import eid
from mc.report import Check, Result, chunked, digest, parallel

WHERE = ("client", "federation", "beside")


def mark(who, n=0):
    return sign({"iss": eid("A"), "sub": eid(who), "id": f"https://refeds.org/{n}", "iat": T0}, KEY["A"])


def given(kind, marks):
    """Trust marks the way an operator gives them"""
    return (lambda: list(marks)) if kind == "computed" else list(marks) if kind == "list" else None


class RecordingServer(Server):
    def register(self, tok):
        self.last = super().register(tok)
        return self.last


class Pair:
    """A client and a server in a federation"""

    def __init__(self, case):
        self.case = case
        self.typ = case["typ"]
        Clock.reset()
        hints = hints_for(case["struct"], case["server"])
        self.fed = Fed(hints, self.typ, case.get("policy"))
        w = fresh_world()
        self.fed.serve(w)
        self.cl = Client(self.typ, case["anchors"], hints.get("C", []), case.get("where", "client"),
                         eid("O") if case.get("knows", True) else "")
        self.cfe = self.cl.combo["federation_entity"]
        self.hints = [eid(h) for h in hints.get("C", [])]
        self.marks = [mark("C")] if case.get("marks") else []
        self.cfe.context.trust_marks = given(case.get("marks"), self.marks)
        self.s = RecordingServer(SERVER[self.typ], case["server anchors"], case.get("priority", ""))
        ofe = self.s.combo["federation_entity"]
        ofe.context.authority_hints = [eid(h) for h in hints.get("O", [])]
        ofe.context.trust_marks = given(case.get("server marks"), [mark("O", 1), mark("O", 2)])
        serve_entity(w, self.cfe)
        serve_entity(w, ofe)

    def ask(self):
        """The request the client makes: (token, what's wrong with it)"""
        more = {"behaviour_args": {"client": self.cl.combo[self.typ]}}
        try:
            tok = self.cl.service.get_request_parameters(request_body_type="jose", method="POST", **more)["body"]
        except Exception as err:
            return None, f"no request: {err!r}"
        p = payload_of(tok)
        now = int(Clock.now)
        if not verifies(tok, jwks(KEY["C"])):
            return tok, "request not signed by the client"
        if (p.get("iss"), p.get("sub")) != (ME, ME):
            return tok, f"request by {p.get('iss')} about {p.get('sub')}"
        if not now - 60 <= p.get("iat", 0) <= now < p.get("exp", 0):
            return tok, "request's lifetime"
        if sorted(k["kid"] for k in p.get("jwks", {}).get("keys", [])) != \
                sorted(k["kid"] for k in jwks(KEY["C"])["keys"]) or "d" in json.dumps(p["jwks"]["keys"][0]).split('"'):
            return tok, "request's keys"
        if p.get("authority_hints", []) != self.hints:
            return tok, f"request with authority hints {p.get('authority_hints')}"
        if p.get("trust_marks", []) != self.marks:
            return tok, f"request with {len(p.get('trust_marks', []))} trust marks, should be {len(self.marks)}"
        md = p.get("metadata", {})
        if self.typ not in md or set(md) - {self.typ, "federation_entity"}:
            return tok, f"request with metadata for {sorted(md)}"
        own = md[self.typ]
        got = self.got or {}        # once registered it may ask for what it has
        if norm(own.get("redirect_uris")) != [ME + "/cb"] or \
                norm(own.get("contacts")) not in (["leaf"], norm(got.get("contacts"))) or \
                own.get("client_name") not in ("x", got.get("client_name")):
            return tok, f"request with {own}"
        return tok, None

    def chains(self, who, anchors):
        faults = self.fed.faults
        if self.unsure:     # what was there may be remembered
            self.fed.faults = {}
        try:
            return self.fed.chains(who, anchors)
        finally:
            self.fed.faults = faults

    def resolved(self, md, path):
        policy = self.fed.policy
        if policy == "violated" and "grant_types" not in md:
            self.fed.policy = None      # nothing there that could violate it
        try:
            r = self.fed.resolved(md, path)
        finally:
            self.fed.policy = policy
        if r is not None:
            r["contacts"] = list(dict.fromkeys(r["contacts"]))
        return r

    def judge(self, md):
        """(must be registered, [(anchor, resolved)])"""
        opts = [(path[-1], self.resolved(md, path)) for path in self.chains("C", self.case["server anchors"])]
        opts = [(a, r) for a, r in opts if r is not None]
        return bool(opts), opts

    def round(self):
        """Ask, register and take in; what's wrong or None"""
        tok, bad = self.ask()
        if bad:
            return bad
        md = payload_of(tok)["metadata"][self.typ]
        must, opts = self.judge(md)
        if self.unsure:
            must = None
        bad = wrong(self.s, tok, must, opts, ME, self.case.get("priority", ""))
        if bad:
            return f"server: {bad}"
        resp = self.s.last
        if resp is None:
            return None
        p = payload_of(resp)
        ta = [a for a, _ in opts if eid(a) == p["trust_anchor_id"]][0]
        info = p["metadata"][self.typ]
        own = self.chains("C", ta)
        possible = [r for r in (self.resolved(info, path) for path in own) if r is not None]
        take = ta in self.case["anchors"] and bool(self.chains("O", ta)) and bool(possible)
        if take and (len(own) > 1 or self.unsure):
            take = None
        before = self.cl.state()
        got = self.cl.receive(resp)
        if got == "unable" and take is not False:
            return None
        if got is None:
            if self.cl.state() != before:
                return "client: refused but something changed"
            return "client: refused" if take else None
        if take is False:
            return "client: accepted"
        if got.get("client_id") not in self.s.cdb:
            return f"client goes by {got.get('client_id')}, registered are {sorted(self.s.cdb)}"
        entry = self.s.cdb[got["client_id"]]
        if got.get("client_secret") != entry.get("client_secret"):
            return "another secret than registered"
        for r in possible:
            if set(r.get("contacts", [])) == set(got.get("contacts", [])) and \
                    set(got.get("contacts", [])) == set(entry.get("contacts", [])) | set(r["contacts"]):
                break
        else:
            return f"client's contacts {got.get('contacts')}, registered {entry.get('contacts')}"
        if got.get("client_name") not in [r.get("client_name") for r in possible]:
            return f"client's name {got.get('client_name')}"
        for k in set(got) & set(info) - {"contacts", "client_name"}:
            if norm(got[k]) != norm(info[k]):
                return f"client has {k} {got[k]}, was told {info[k]}"
        if self.case.get("where", "client") != "federation":
            unit = self.cl.combo[self.typ]
            if unit.get_client_id() != got["client_id"]:
                return f"client goes by {unit.get_client_id()}, registered is {got['client_id']}"
        self.got = got
        return None

    unsure = False
    got = None


def single(res, case):
    p = Pair(case)
    for n in range(2):
        res.count("evaluations")
        bad = p.round()
        if bad:
            res.violation(f"{bad[:50]}:{json.dumps(case, sort_keys=True)}", f"{bad} {case} round {n}", case)
            return
    res.count("registered" if p.got else "not registered")
    res.states.add(digest(case))
    if case.get("marks") and case.get("policy"):
        res.sample(case)


# --------------------------------------------------------------------------------- histories
OPS = ["register", "mark", "unmark", "hint", "expel", "admit", ("time", 3700)]


def history(res, case):
    p = Pair(dict(case, struct="A", server="A", anchors="A", **{"server anchors": "A"}))
    changed = -10**9
    for n, op in enumerate(list(case["ops"]) + ["register"]):
        bad = None
        now = int(Clock.now)
        if op == "register":
            p.unsure = now <= changed + 3600       # what's remembered may still be used
            res.count("evaluations")
            bad = p.round()
            res.states.add(digest([case["typ"], case.get("where"), case["ops"][:n]]))
        elif op == "mark":
            p.marks = p.marks + [mark("C", len(p.marks))]
            p.cfe.context.trust_marks = given(("list", "computed")[n % 2], p.marks)
        elif op == "unmark":
            p.marks = []
            p.cfe.context.trust_marks = []
        elif op == "hint":
            p.hints = p.hints + [eid("U")] if eid("U") not in p.hints else p.hints
            p.cfe.context.authority_hints = (lambda h=tuple(p.hints): list(h)) if n % 2 else list(p.hints)
        elif op == "expel":
            if ("fetch", "A", "C") not in p.fed.faults:
                p.fed.faults[("fetch", "A", "C")] = "404"
                changed = now
        elif op == "admit":
            if p.fed.faults.pop(("fetch", "A", "C"), None):
                changed = now
        else:
            Clock.advance(op[1])
        if bad:
            res.violation(f"{bad[:50]}:{json.dumps(case)}", f"{bad} {case} step {n} {op}", case)
            return


def cases(thorough):
    some = ("A", "M", "AB", "MB", "U") if not thorough else tuple(STRUCT)
    for typ in SERVER:
        for st, sv in itertools.product(some, some):
            for anchors, sanchors in itertools.product(("A", "B", "AB"), repeat=2):
                for prio in ("", "AB", "BA") if sanchors == "AB" else ("",):
                    for pol in (None, "value", "violated"):
                        yield {"typ": typ, "struct": st, "server": sv, "anchors": anchors,
                               "server anchors": sanchors, "priority": prio, "policy": pol}
        for where in WHERE:
            for st, sv in itertools.product(("A", "M", "U"), repeat=2):
                for marks, smarks in itertools.product((None, "list", "computed"), repeat=2):
                    for knows in (True, False):
                        for pol in (None, "value", "violated"):
                            yield {"typ": typ, "struct": st, "server": sv, "anchors": "A", "server anchors": "A",
                                   "where": where, "marks": marks, "server marks": smarks, "knows": knows,
                                   "policy": pol}


def histories(depth):
    for typ in SERVER:
        for where in WHERE:
            for n in range(1, depth + 1):
                for ops in itertools.product(OPS, repeat=n):
                    yield {"typ": typ, "where": where, "ops": ops}


def work(chunk):
    res = Result()
    for case in chunk:
        if "ops" in case:
            history(res, dict(case, ops=[tuple(o) if isinstance(o, list) else o for o in case["ops"]]))
        else:
            single(res, case)
    return res


def main():
    chk = Check("C31", "exploration", ["the service's HTTP exchange is carried over by the check: what the client "
                                       "asks is given to the server, its answer to the client"])
    if chk.replay:
        res = work([chk.replay["case"]])
        print(res.violations or "no violation")
        raise SystemExit(1 if res.violations else 0)
    depth = 4 if chk.thorough else 3
    res = parallel(work, chunked(list(cases(chk.thorough)) + list(histories(depth)), 96))
    chk.finish(res, {
        "evaluations": res.counts["evaluations"], "distinct_nontrivial": len(res.states),
        "rule": f"{len(STRUCT) if chk.thorough else 5}x{len(STRUCT) if chk.thorough else 5} federations x anchors "
                "of both x priorities x policies, placements x kinds of trust marks at both, twice each, and all "
                "histories of 7 operations up to the stated length, for both protocols",
        "history_length": depth, "exhaustive": True,
    })


if __name__ == "__main__":
    main()
