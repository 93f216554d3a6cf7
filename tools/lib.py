"""Building the harness from /repo's working tree, running sessions, running TLC."""
import hashlib, json, os, queue, re, select, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, _, fs in os.walk(base):
            files += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        files.append(os.path.join(REPO, f))
    files.append(os.path.join(VERIF, "harness", "Cargo.toml"))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def build():
    """Returns {profile: binary}. The target directory is keyed by content, so it is never stale."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    target = os.path.join(BUILD, "t-" + key)
    out = {}
    need = []
    for prof in ("checked", "release"):
        b = os.path.join(target, prof, "harness")
        out[prof] = b
        if not os.path.exists(b):
            need.append(prof)
    if need:
        old = sorted((d for d in os.listdir(BUILD) if d.startswith("t-") and d != "t-" + key),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-1]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        procs = []
        for prof in need:
            env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
            # separate target directories while building, so that the two builds do not wait for each other
            env["CARGO_TARGET_DIR"] = target + "." + prof
            procs.append((prof, subprocess.Popen(
                ["cargo", "build", "--offline", "--profile", prof], cwd=os.path.join(VERIF, "harness"),
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for prof, p in procs:
            o, _ = p.communicate()
            if p.returncode != 0:
                raise ToolError("harness does not build:\n" + o[-4000:])
            os.makedirs(os.path.join(target, prof), exist_ok=True)
            tmp = os.path.join(target, prof, "harness.tmp%d" % os.getpid())
            shutil.copy2(os.path.join(target + "." + prof, prof, "harness"), tmp)
            os.replace(tmp, os.path.join(target, prof, "harness"))
            shutil.rmtree(target + "." + prof, ignore_errors=True)
    return out


# ------------------------------------------------------------------ running sessions
CHILDREN = []


def end_children():
    for c in list(CHILDREN):
        if c.p.poll() is None:
            c.p.kill()


class Child:
    def __init__(self, binary):
        CHILDREN.append(self)
        self.p = subprocess.Popen([binary, "exec"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)
        self.buf = b""
        os.set_blocking(self.p.stdout.fileno(), False)

    def line(self, timeout):
        """next line, '' at end of file, None on timeout"""
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            d = self.p.stdout.read(1 << 20)
            if d is None:
                continue
            if d == b"":
                return ""
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode()

    def kill(self):
        self.p.kill()
        self.p.wait()
        if self in CHILDREN:
            CHILDREN.remove(self)


def strip(e):
    return {k: v for k, v in e.items() if not k.startswith("_")}


def recorded(e, r):
    """the trace event for a call and its reply"""
    x = dict(strip(e))
    for k in ("refs", "cut", "skip", "xor", "pre", "post"):
        if "refs" in e:
            x.pop(k, None)
    x.update(r)
    if "_wn" in e:
        n, d = int(e["_wn"], 16), int(e["_wx"], 16)
        num = x["data"] if x["op"] == "decmsg" else (x["v"][0] if x["k"] == "ok" else [])
        w = pow(int.from_bytes(bytes(num), "big"), d, n)
        x["wit"] = list(w.to_bytes((w.bit_length() + 7) // 8, "big"))
    return x


def run_sessions(binary, sessions, workers=8, event_timeout=120.0, max_bad=3):
    """Executes sessions; returns the list of recorded sessions (events with k and v)."""
    out = [None] * len(sessions)
    q = queue.SimpleQueue()
    for i in range(len(sessions)):
        q.put(i)
    bad = [0]
    errors = []
    lock = threading.Lock()

    def one(child, s):
        msg = json.dumps({"ev": [strip(e) for e in s["ev"]]}, separators=(",", ":")) + "\n"
        rec = []
        try:
            child.p.stdin.write(msg.encode())
            child.p.stdin.flush()
        except BrokenPipeError:
            pass
        for e in s["ev"]:
            tmo = e.get("_tmo", event_timeout)
            l = child.line(tmo)
            if l == ".":
                return rec, True       # the script could not go on (object missing)
            if l is None or l == "":
                child.p.kill()
                code = child.p.wait()
                if code == 3:
                    raise ToolError("harness error in session %r" % (s["ev"],))
                rec.append(dict(strip(e), k="hang" if l is None else "abort", v=[]))
                if "refs" in e:
                    rec[-1]["data"] = []
                return rec, False
            rec.append(recorded(e, json.loads(l)))
        l = child.line(event_timeout)
        if l != ".":
            child.kill()
            return rec, False
        return rec, True

    def work():
        child = None
        try:
            while True:
                try:
                    i = q.get_nowait()
                except queue.Empty:
                    break
                if bad[0] >= max_bad:
                    continue
                if child is None:
                    child = Child(binary)
                rec, alive = one(child, sessions[i])
                out[i] = rec
                if not alive:
                    with lock:
                        bad[0] += 1
                    child.kill()
                    child = None
        except Exception as ex:
            errors.append(ex)
        finally:
            if child is not None:
                child.kill()

    ts = [threading.Thread(target=work) for _ in range(min(workers, max(1, len(sessions))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0] if isinstance(errors[0], ToolError) else ToolError("executor: %r" % errors[0])
    return [{"id": s.get("id", i), "ev": out[i]} for i, s in enumerate(sessions) if out[i] is not None]


# ------------------------------------------------------------------ TLC
def tlc(module, cfg=None, env=None, workers=8, heap="6g", timeout=800, extra=(), stack="64m"):
    """Runs TLC; returns dict(rc, out, states, distinct, violated, wall)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    t0 = time.monotonic()
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"]
    cmd += list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    o = p.stdout
    r = dict(rc=p.returncode, out=o, wall=time.monotonic() - t0, states=0, distinct=0, violated=False)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", o)
    if m:
        r["states"] = int(m[-1][0].replace(",", ""))
        r["distinct"] = int(m[-1][1].replace(",", ""))
    if re.search(r"Error: Invariant \S+ is violated|Error: Action property \S+ is violated|Temporal properties were violated", o):
        r["violated"] = True
    elif p.returncode != 0:
        raise ToolError("TLC failed on %s:\n%s" % (module, o[-3000:]))
    return r


def validate(domain, recorded, name):
    """Trace validation of recorded sessions. Returns (stats, failing) where failing is None or a dict."""
    recorded = [r for r in recorded if r["ev"]]
    if not recorded:
        return dict(states=0, distinct=0, sessions=0, events=0, wall=0), None
    path = os.path.join(BUILD, "trace-%s-%d.ndjson" % (name, os.getpid()))
    with open(path, "w") as f:
        for r in recorded:
            f.write(json.dumps({"ev": r["ev"]}, separators=(",", ":")) + "\n")
    try:
        r = tlc("T_" + domain, env={"TRACE": path})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            os.unlink(path)
    n_events = sum(len(x["ev"]) for x in recorded)
    st = dict(states=r["states"], distinct=r["distinct"], sessions=len(recorded), events=n_events, wall=r["wall"])
    if r["violated"]:
        s = re.findall(r"^/\\ s = (\d+)", r["out"], re.M)
        l = re.findall(r"^/\\ l = (\d+)", r["out"], re.M)
        if not s or not l:
            raise ToolError("cannot read the counterexample:\n" + r["out"][-3000:])
        s, l = int(s[-1]), int(l[-1])
        m = re.findall(r"^/\\ reply = (.*?)(?=^/\\|^$|\Z)", r["out"], re.M | re.S)
        exp = m[-1].strip() if m else "?"
        if '"bad witness"' in exp:
            raise ToolError("witness computed by the harness is wrong: session %r" % recorded[s - 1]["ev"][l - 1])
        return st, dict(session=recorded[s - 1], event=l, expected=exp)
    if r["distinct"] != len(recorded) + n_events:
        raise ToolError("TLC explored %d states of T_%s, expected %d" % (r["distinct"], domain, len(recorded) + n_events))
    return st, None
