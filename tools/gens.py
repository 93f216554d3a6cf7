"""Budgets per property, and the calls that take long."""

COMMON = ["the specification (spec/*.tla) states the intended behaviour", "TLC evaluates it correctly",
          "the harness reports calls and replies faithfully"]
_MID = ["for messages above 2^29 bytes the chaining value before the last blocks is taken from the mirror; TLC validates from there on"]
_POS = ["for positions above 2^16 the state is taken from the mirror; TLC validates from there on"]
ASSUMPTIONS = dict(C09=_POS, C12=_MID, C13=_MID, C14=_MID, C15=_MID)

SAMPLE = {}      # random scripts validated by TLC
HUNT = dict(C32=20)        # seconds of search


def budget(prop, tier, changed):
    """on a changed tree the search runs longer"""
    b = dict(sample=SAMPLE.get(prop, 300), hunt=HUNT.get(prop, 12) * (3 if changed else 1), more=0)
    if tier == "thorough":
        b["sample"] *= 8
        b["hunt"] = 300
        b["more"] = 20000
    return b


def _be8(n):
    return list(n.to_bytes(8, "big"))


def _giant(alg, n):
    return dict(ev=[dict(op="giant", alg=alg, total=[n >> 24, n & 0xffffff], pat=0, _tmo=400)])


def _longder(tag, n, width, more=0):
    """n content bytes announced as n + more in a length field of the given width"""
    return dict(ev=[dict(op="derlong", tag=tag, lenf=[128 + width] + list((n + more).to_bytes(width, "big")), far=_be8(n), _tmo=400)])


def far(prop, tier):
    """calls that take long: they run once, in the release build"""
    deep = tier == "thorough"
    out = []
    algs = dict(C12=["md4", "md5"], C13=["sha1"], C14=["sha224", "sha256"], C15=["sha384", "sha512"]).get(prop, [])
    for n in [2**32 + 70, 2**29 + 3] + ([2**31 + 1, 2**32 - 1, 2**33 + 57] if deep else []):
        out += [_giant(a, n) for a in algs]
    if prop == "C09":
        for i, n in enumerate([2**32 + 5, 2**24 + 5, 2**16 + 5] + ([2**33 + 1, 2**31 + 9] if deep else [])):
            for how in (0, 1):
                out.append(dict(ev=[dict(op="rc4far", key=[7 + i, 200, 3 * how], far=_be8(n), how=how, _tmo=400)]))
    if prop == "C10":
        for n in [2**32 + 250, 2**24 + 5, 2**16 + 5] + ([2**33 + 1, 2**31 + 9] if deep else []):
            out.append(dict(ev=[dict(op="streamfar", far=_be8(n), data=[(i * 37) % 256 for i in range(64)], _tmo=400)]))
    if prop in ("C21", "C22"):
        sizes = [2**24 + 5, 2**25, 2**28 + 3] + ([2**31 + 3, 2**32 + 5] if deep else [])
        for i, n in enumerate(sizes):
            w = (n.bit_length() + 7) // 8
            if prop == "C21":
                out += [_longder((2, 4, 6)[(i + j) % 3], n, x) for j, x in enumerate((w, w + 1, 16))]
            else:
                out += [_longder(4, n, 5, more) for more in (1, -1, 2**32)]
                out += [_longder(2, n, 9, 2**64)] + [_longder(6, n, 16, 2**100)]
    out.sort(key=lambda s: -_cost(s["ev"][0]))
    return out


def _cost(e):
    return e["total"][0] if "total" in e else int.from_bytes(bytes(e["far"]), "big") >> 24
