#!/usr/bin/env python3
"""Development tool, run by no check: validates the specification itself against independent implementations. The traces
contain the replies of Python's hashlib and integers and of OpenSSL instead of the library's; TLC must accept them all,
and must reject each of them once a bit of a reply is changed."""
import copy, hashlib, json, os, random, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

R = random.Random(5)
rb = lambda n: bytes(R.randrange(256) for _ in range(n))


def ossl(args, data):
    p = subprocess.run(["openssl"] + args, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Exception("openssl %s: %s" % (args, p.stderr.decode()))
    return p.stdout


def ok(e, *v):
    return dict(e, k="ok", v=[list(x) for x in v])


LEG = ["-provider", "legacy", "-provider", "default"]
out = {"Hash": [], "Block": [], "Stream": [], "Big": [], "Rsa": []}
for alg in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "md4"):
    for n in (0, 1, 3, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 200, 1000):
        m = rb(n)
        d = ossl(["dgst", "-" + alg, "-binary"] + LEG, m) if alg == "md4" else hashlib.new(alg, m).digest()
        out["Hash"].append([ok(dict(op="hash", alg=alg, data=list(m), via=0), d)])
for bits in (128, 192, 256):
    for _ in range(10):
        k, b = rb(bits // 8), rb(16)
        c = ossl(["enc", "-aes-%d-ecb" % bits, "-K", k.hex(), "-nopad"], b)
        out["Block"].append([ok(dict(op="aes", key=list(k), words=0)), ok(dict(op="block", obj=1, dir="enc", data=list(b)), c),
                             ok(dict(op="block", obj=1, dir="dec", data=list(c)), b)])
for name, n, bits in (("rc2-ecb", 16, 128), ("rc2-40-cbc", 5, 40), ("rc2-64-cbc", 8, 64)):
    for _ in range(10):
        k, b = rb(n), rb(8)
        c = ossl(["enc", "-" + name, "-K", k.hex(), "-nopad"] + ([] if "ecb" in name else ["-iv", "00" * 8]) + LEG, b)
        out["Block"].append([ok(dict(op="rc2", key=list(k), bits=bits)), ok(dict(op="block", obj=1, dir="enc", data=list(b)), c)])
for _ in range(10):
    k, m = rb(16), rb(R.randrange(300))
    out["Stream"].append([ok(dict(op="rc4enc", key=list(k), data=list(m)), ossl(["enc", "-rc4", "-K", k.hex()] + LEG, m))])
num = lambda x: x.to_bytes((x.bit_length() + 7) // 8, "big")
for _ in range(200):
    x, y = R.getrandbits(R.randrange(400)), R.getrandbits(R.randrange(1, 300))
    x, y = max(x, y), min(x, y)
    s = R.randrange(100)
    new = lambda v: ok(dict(op="be", data=list(num(v)), via=0), num(v))
    for op, a, z in [("add", dict(other=2), x + y), ("sub", dict(other=2), x - y), ("shl", dict(n=[0, s]), x << s), ("shr", dict(n=[0, s]), x >> s)] + (
            [("rem", dict(other=2), x % y)] if y else []):
        out["Big"].append([new(x), new(y), ok(dict(op=op, obj=1, **a), num(z)), ok(dict(op="bytes", obj=1), num(z))])
with tempfile.TemporaryDirectory() as t:
    key = os.path.join(t, "k.pem")
    ossl(["genrsa", "-out", key, "1024"], b"")
    txt = ossl(["rsa", "-in", key, "-noout", "-text"], b"").decode()
    import re
    field = lambda f: int(re.search(f + r":\s*((?:[0-9a-f]{2}:?\s*)+)", txt).group(1).replace(":", "").replace(" ", "").replace("\n", ""), 16)
    n, d = field("modulus"), field("privateExponent")
    for _ in range(20):
        m = rb(R.randrange(63))
        c = ossl(["pkeyutl", "-encrypt", "-inkey", key, "-pkeyopt", "rsa_padding_mode:oaep", "-pkeyopt", "rsa_oaep_md:sha256"], m)
        em = pow(int.from_bytes(c, "big"), d, n).to_bytes(128, "big")
        out["Rsa"].append([ok(dict(op="oaep_dec", label=[], data=list(em), n=128), m)])

bad = 0
for dom, ss in out.items():
    st, fail = lib.validate(dom, [dict(ev=s) for s in ss], "spec")
    if fail:
        bad += 1
        print(dom, "REJECTED", fail["expected"], json.dumps(fail["session"]["ev"])[:600])
        continue
    wrong = 0
    for s in R.sample(ss, min(6, len(ss))):
        s = copy.deepcopy(s)
        v = [e for e in s if e["v"] and e["v"][0]][-1:] if not any(e["op"] == "bytes" for e in s) else [s[-1]]
        if not v or not v[0]["v"] or not v[0]["v"][0]:
            continue
        v[0]["v"][0][0] ^= 1
        _, fail = lib.validate(dom, [dict(ev=s)], "spec")
        if not fail:
            bad += 1
            print(dom, "ACCEPTED A WRONG REPLY", json.dumps(s)[:600])
        wrong += 1
    print("%s: %d reference traces accepted, %d changed ones rejected" % (dom, st["sessions"], wrong))
sys.exit(1 if bad else 0)
