"""A direct reading of how metadata policies combine and apply; no code shared with fedservice."""


class Refused(Exception):
    pass


def aset(v):
    return set(v) if isinstance(v, list) else {v}


def merge_claim(sup, sub):
    """One claim: the superior's policy with the subordinate's added."""
    if not sub:
        return dict(sup)
    if "value" in sup:
        # a fixed value may only be repeated, or declared essential
        if set(sub) == {"essential"}:
            return dict(sup)
        if "value" in sub and "essential" not in sub and sub["value"] == sup["value"]:
            return dict(sup)
        raise Refused("fixed value")
    res = {}
    for op in set(sup) | set(sub):
        if op in sup and op in sub:
            a, b = sup[op], sub[op]
            if op in ("subset_of", "superset_of", "one_of"):
                c = sorted(set(a) & set(b))
                if not c:
                    raise Refused(f"{op} disjoint")
                res[op] = c
            elif op == "add":
                res[op] = sorted(aset(a) | aset(b))
            elif op in ("default", "value"):
                if a != b:
                    raise Refused(op)
                res[op] = a
            elif op == "essential":
                if a and not b:
                    raise Refused("essential relaxed")
                res[op] = a or b
        else:
            res[op] = sup[op] if op in sup else sub[op]
    check_consistent(res)
    return res


def check_consistent(p):
    if "one_of" in p and ("subset_of" in p or "superset_of" in p):
        raise Refused("one_of with sets")
    if "subset_of" in p:
        allowed = set(p["subset_of"])
        for op in ("superset_of", "add", "default", "value"):
            if op in p and not aset(p[op]) <= allowed:
                raise Refused(f"{op} outside subset_of")
    if "superset_of" in p:
        need = set(p["superset_of"])
        for op in ("add", "default", "value"):
            if op in p and not need <= aset(p[op]):
                raise Refused(f"{op} lacks superset_of")
    if "one_of" in p:
        for op in ("default", "value"):
            if op in p and (isinstance(p[op], list) or p[op] not in p["one_of"]):
                raise Refused(f"{op} outside one_of")
    if "value" in p and "add" in p and not aset(p["add"]) <= aset(p["value"]):
        raise Refused("value lacks add")


def merge(policies):
    """policies: claim -> operators, superior first"""
    res = {}
    for pol in policies:
        new = {}
        for claim in set(res) | set(pol):
            if claim in res and claim in pol:
                new[claim] = merge_claim(res[claim], pol[claim])
            else:
                new[claim] = dict(res[claim] if claim in res else pol[claim])
        res = new
    return res


def merge_metadata(mds):
    res = {}
    for m in mds:
        for k, v in m.items():
            if k in res and res[k] != v:
                raise Refused("superiors disagree on metadata")
            res[k] = v
    return res


ABSENT = "<absent>"


def apply_claim(p, v):
    if "value" in p:
        return p["value"]
    if "add" in p:
        v = p["add"] if v == ABSENT else list(aset(v) | aset(p["add"]))
    if "default" in p and v == ABSENT:
        v = p["default"]
    if v != ABSENT:
        if "one_of" in p and (isinstance(v, list) or v not in p["one_of"]):
            raise Refused("one_of")
        if "subset_of" in p:
            if isinstance(v, list):
                v = [x for x in v if x in p["subset_of"]]
                if not v:
                    raise Refused("subset_of")
            elif v not in p["subset_of"]:
                raise Refused("subset_of")
        if "superset_of" in p and not set(p["superset_of"]) <= aset(v):
            raise Refused("superset_of")
    if p.get("essential") and v == ABSENT:
        raise Refused("essential")
    return v


def apply(policies, superior_metadata, metadata):
    md = dict(metadata)
    md.update(merge_metadata(superior_metadata))
    for claim, p in merge(policies).items():
        v = apply_claim(p, md.get(claim, ABSENT))
        if v != ABSENT:
            md[claim] = v
    return md


def norm(v):
    """Lists in metadata and policies are sets"""
    if isinstance(v, list):
        return ("list",) + tuple(sorted(map(str, v)))
    return v


def norm_md(md):
    return {k: norm(v) for k, v in md.items()}


def satisfied(p, v, single_superset=True):
    """Does a value satisfy one statement's operators?"""
    if "value" in p and norm(v) != norm(p["value"]):
        return "value"
    if p.get("essential") and v == ABSENT:
        return "essential"
    if "default" in p and v == ABSENT:
        return "default"
    if "add" in p and (v == ABSENT or not aset(p["add"]) <= aset(v)):
        return "add"
    if v == ABSENT:
        return None
    if "one_of" in p and (isinstance(v, list) or v not in p["one_of"]):
        return "one_of"
    if "subset_of" in p and not aset(v) <= set(p["subset_of"]):
        return "subset_of"
    if single_superset and "superset_of" in p and not set(p["superset_of"]) <= aset(v):
        return "superset_of"
    return None
