"""Where to look: what in /repo/src differs from the tree this machinery was written for.

The result only steers the search for scripts (how long it runs, and which numbers and texts the random scripts prefer);
whether a reply is right is decided by the specification alone.  baseline.json is written by `focus.py --write`."""
import collections, hashlib, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

BASE = os.path.join(lib.VERIF, "tools", "baseline.json")
NAMED = {"u8::MAX": 2**8 - 1, "u16::MAX": 2**16 - 1, "i16::MAX": 2**15 - 1, "u32::MAX": 2**32 - 1, "i32::MAX": 2**31 - 1,
         "u64::MAX": 2**64 - 1, "usize::MAX": 2**64 - 1, "i64::MAX": 2**63 - 1, "i8::MAX": 127}
INT = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)"


def num(t):
    return int(re.sub(r"_", "", t), 0) if not re.match(r"0\d", t) else int(t.replace("_", ""))


def literals(src):
    """Counter of ints and strings of a Rust source text, comments removed"""
    out = collections.Counter()
    tok = re.compile(r'//[^\n]*|/\*.*?\*/|b?r#*"(?:.*?)"#*|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.[^\']*|[^\'\\])\'', re.S)
    rest, at = [], 0
    for m in tok.finditer(src):
        rest.append(src[at:m.start()])
        at = m.end()
        t = m.group(0)
        if t.startswith("/"):
            continue
        body = t[t.index('"' if '"' in t else "'") + 1:].rstrip("#")[:-1]
        body = re.sub(r"\\u\{([0-9a-fA-F_]+)\}", lambda m: chr(int(m.group(1).replace("_", ""), 16) % 0x110000), body)
        try:
            body = body.encode().decode("unicode_escape") if "\\" in body else body
        except UnicodeDecodeError:
            pass
        if "'" == t.lstrip("b")[0]:
            if len(body) == 1:
                out[ord(body)] += 1
                out[body] += 1
        elif len(body) <= 200:
            out[body] += 1
            for m in re.finditer(r"\{[^{}]*:[^{}]*?(\d{2,6})[^{}\d]*\}", body):  # widths and precisions in format strings
                out[int(m.group(1))] += 1
    code = "\n".join(rest + [src[at:]])
    for m in re.finditer(r"(?<![\w.])(%s)(?:_?[iu](?:8|16|32|64|128|size))?\b" % INT, code):
        try:
            out[num(m.group(1))] += 1
        except ValueError:
            pass
    for m in re.finditer(r"(?<![\w.])(%s)(?:_?[iu]\w+)?\s*(<<|\*)\s*(%s)" % (INT, INT), code):
        try:
            a, b = num(m.group(1)), num(m.group(3))
            if m.group(2) == "*":
                out[a * b] += 1
            elif b < 128:
                out[a << b] += 1
        except ValueError:
            pass
    for k, v in NAMED.items():
        n = code.count(k)
        if n:
            out[v] += n
    return out


def tree():
    res = {}
    base = os.path.join(lib.REPO, "src")
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8", errors="replace") as h:
                    src = h.read()
                res[os.path.relpath(p, base)] = src
    return res


def digest(src):
    """of the code without comments and white space"""
    s = re.sub(r"//[^\n]*", "", src)
    return hashlib.sha256(re.sub(r"\s+", " ", s).encode()).hexdigest()[:16]


def snapshot():
    out = {}
    for f, src in sorted(tree().items()):
        c = literals(src)
        out[f] = dict(digest=digest(src), ints=sorted((k, v) for k, v in c.items() if isinstance(k, int)),
                      texts=sorted((k, v) for k, v in c.items() if isinstance(k, str)))
    return out


def focus():
    """(changed files, numbers, texts) that are new in the current tree"""
    base = json.load(open(BASE))
    files, ints, texts = [], [], []
    for f, s in snapshot().items():
        old = base.get(f, dict(digest="", ints=[], texts=[]))
        if s["digest"] == old["digest"]:
            continue
        files.append(f)
        for kind, out in (("ints", ints), ("texts", texts)):
            had = dict(map(tuple, old[kind]))
            new = [k for k, n in s[kind] if n > had.get(k, 0)]
            out += new[:400]
    files += [f for f in base if not os.path.exists(os.path.join(lib.REPO, "src", f))]
    return files, sorted(set(x for x in ints if 0 <= x < 2**64)), sorted(set(t for t in texts if t and len(t) <= 80))


def environment(ints, texts):
    return ",".join(map(str, ints)) + ";" + ",".join(t.encode("utf-8", "replace").hex() for t in texts)


if __name__ == "__main__":
    if "--write" in sys.argv:
        with open(BASE, "w") as f:
            f.write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v)) for k, v in snapshot().items()) + "\n}\n")
    else:
        print(focus())
