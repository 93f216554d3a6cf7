"""Design models checked per property. Each is a TLA+ module MC_<name> that TLC explores exhaustively; many of them also
print call scripts with the replies the specification gives (lines "@[{"e": call, "r": reply}, ...]")."""
import json, os
import lib
from lib import ToolError

MODELS = {}
for m, ids in dict(
        Pad="C04 C05", Bulk="C01 C02 C03", Stream="C10", Rc4="C09", Chain="C12 C13 C14 C15",
        Words="C07 C08 C12 C13 C14 C15", BigInts="C17 C18", Big="C17 C18", Hex="C16", Pem="C20", PemTrip="C19",
        Der="C21 C22", DerTrip="C21", Oaep="C27 C28", Rsa="C24", Pow="C25", KeyFile="C23", Msg="C26 C29",
        Cipher="C06 C07 C08 C30", Objs="C30", Refuse="C31", Keys="C33", Threads="C32", ThreadsView="C32", Nest="C32", Hand="C32", HandView="C32",
        Md2="C11", Md45="C12", Sha1="C13", Sha2="C14", Sha2w="C15").items():
    for i in ids.split():
        MODELS.setdefault(i, []).append(m)


MODULE = dict(ThreadsView="Threads", HandView="Hand", Md2="Digest", Md45="Digest", Sha1="Digest", Sha2="Digest", Sha2w="Digest")        # models that are another configuration of a module


def run(m, tier, workers=8):
    """checks one model; returns dict(distinct, states, wall, config, scripts: list of lines)"""
    name = "MC_" + MODULE.get(m, m)
    cfg = "MC_" + m
    if tier == "thorough" and os.path.exists(os.path.join(lib.SPEC, cfg + "_deep.cfg")):
        cfg += "_deep"
    r = lib.tlc(name, cfg=cfg, workers=workers, heap="8g", timeout=1500)
    if r["violated"]:
        raise ToolError("the design model %s is violated:\n%s" % (name, "\n".join(
            l for l in r["out"].splitlines() if not l.startswith('"@'))[-3000:]))
    scripts = sorted({json.loads(l)[1:] for l in r["out"].splitlines() if l.startswith('"@')})
    return dict(model=m, distinct=r["distinct"], states=r["states"], wall=r["wall"], config=cfg, scripts=scripts)


def witnesses(ev):
    """adds to padded RSA calls of a script what lib.run_sessions needs to compute their witness: modulus and other exponent"""
    if not any(e["op"] in ("encmsg", "decmsg") for e in ev) or ev[0]["op"] != "create":
        return ev
    num = lambda b: int.from_bytes(bytes(b), "big")
    p, q, x = num(ev[0]["p"]), num(ev[0]["q"]), num(ev[0]["e"])
    try:
        d = pow(x, -1, (p - 1) * (q - 1))
    except ValueError:
        return ev
    exps = {1: d, 2: x}                 # object 1 is the private key, object 2 the public one
    for e in ev:
        if e["op"] == "encmsg":
            e["_wn"], e["_wx"] = "%x" % (p * q), "%x" % exps[3 - e["obj"]]
        elif e["op"] == "decmsg":
            e["_wn"], e["_wx"] = "%x" % (p * q), "%x" % exps[e["obj"]]
    return ev
