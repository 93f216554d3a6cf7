#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property on /repo's current tree.

1. builds the harness against /repo (profiles checked and release)
2. model-checks the design models of the property (TLC)
3. makes call scripts: enumerated ones, ones generated by TLC from the specification, random ones
4. runs them against the real code and validates the recorded traces against the specification (TLC)
5. searches a much larger number of random scripts for replies that differ from the Rust mirror;
   any such script is only a suspect, and is judged by TLC like the others
"""
import json, os, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, gens, models, focus
from lib import ToolError, log

DOMAIN = {}
for d, ids in dict(Block="C01 C02 C03 C04 C05 C06 C07 C08 C30", Stream="C09 C10", Hash="C11 C12 C13 C14 C15 C16",
                   Big="C17 C18", Text="C19 C20 C21 C22", Rsa="C23 C24 C25 C26 C27 C28 C29", Mixed="C31 C32 C33").items():
    for i in ids.split():
        DOMAIN[i] = d
OPDOM = {}
for d, ops in dict(Block="aes rc2 rc5 toy block bulk dbulk warm pad unpad",
                   Stream="fin pat rc4 piece picks keypicks keys skip rc4enc rc4dec rc4far streamfar",
                   Hash="hash dhash giant from_words from_hex from_hash to_bytes to_words equal",
                   Big="be le u128 copy add addb sub diff rem shl shr set clear bytes bits bit as_u128 cmp",
                   Text="pem_parse pem_write pem_trip der derlong der_eq",
                   Rsa="create priv pub kclone keq raw encmsg decmsg dencmsg ddecmsg oaep_enc oaep_dec").items():
    for o in ops.split():
        OPDOM[o] = d


def domain_of(session):
    return OPDOM[session["ev"][0]["op"]]


def known_findings(prop):
    """lines 'known: property=<id> <key>' of KNOWN_FINDINGS.txt"""
    out = []
    p = os.path.join(lib.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


def validate_all(recorded, name, stats):
    """groups by domain; returns first failure or None"""
    groups = {}
    for r in recorded:
        if r["ev"]:
            groups.setdefault(domain_of(r), []).append(r)
    for d, rs in sorted(groups.items()):
        st, fail = lib.validate(d, rs, name)
        stats["states"] += st["distinct"]
        stats["transitions"] += st["events"]
        stats["traces"] += st["sessions"]
        if fail:
            fail["domain"] = d
            return fail
    return None


def trim(v, n=40):
    if isinstance(v, list):
        return [trim(x, n) for x in v[:n]] + (["... %d in all" % len(v)] if len(v) > n else [])
    if isinstance(v, dict):
        return {k: trim(x, n) for k, x in v.items()}
    return v


def search(bins, name, command, regen):
    """eight searching processes (two of them with overflow checks), command(worker, of, statusfile); a process that dies or
    hangs leaves the index of its session in the status file, from which regen(index) gives the session.
    Returns (suspects, [sessions, events, enumerated sessions])"""
    procs, suspects, total = [], [], [0, 0, 0]
    n = 8
    for w in range(n):
        b = bins["checked" if w % 4 == 3 else "release"]
        status = os.path.join(lib.BUILD, "%s-%d-%d" % (name, os.getpid(), w))
        p = subprocess.Popen([b] + command(w, n, status), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        procs.append((p, status))

    def idx(status):
        try:
            with open(status, "rb") as f:
                return f.read(8)
        except OSError:
            return b""

    def collect(p, status):
        last, since, out = None, time.monotonic(), []
        t = threading.Thread(target=lambda: out.append(p.stdout.read()))
        t.start()
        while p.poll() is None:
            time.sleep(0.1)
            cur = idx(status)
            if cur != last:
                last, since = cur, time.monotonic()
            if time.monotonic() - since > 60:        # no session takes that long
                p.kill()
                p.wait()
                break
        t.join()
        lines = "".join(out).splitlines()
        done = [l for l in lines if l.startswith("DONE")]
        for l in lines:
            if l.startswith("{"):
                suspects.append(json.loads(l))
        if done:
            for i, x in enumerate(done[-1].split()[1:]):
                total[i] += int(x)
        else:
            suspects.append(regen(int.from_bytes(idx(status), "little")))
        try:
            os.unlink(status)
        except OSError:
            pass

    ts = [threading.Thread(target=collect, args=x) for x in procs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    suspects.sort(key=lambda s: len(json.dumps(s)))
    for i, s in enumerate(suspects):
        s["id"] = i
    return suspects, total


def run_rounds(prop, bins, rounds):
    """runs rounds of several threads (rounds.rs); replies by round, thread, session. A round that does not end is recorded as
    one whose first call hangs."""
    path = os.path.join(lib.BUILD, "rounds-%s-%d" % (prop, os.getpid()))
    with open(path, "w") as f:
        for r in rounds:
            f.write(json.dumps(r) + "\n")
    out = {}

    def work(w, n):
        b = bins["checked" if w % 4 == 3 else "release"]
        st = path + ".%d" % w
        p = subprocess.Popen([b, "rounds", path, str(w), str(n), st], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        timer = threading.Timer(300, p.kill)
        timer.start()
        done = False
        for l in p.stdout:
            if l.startswith("{"):
                x = json.loads(l)
                out[x["i"]] = x["re"]
            done = done or l.startswith("DONE")
        p.wait()
        timer.cancel()
        if not done:
            try:
                i = int.from_bytes(open(st, "rb").read(8), "little")
            except OSError:
                raise ToolError("rounds could not be run")
            out[i] = [[[dict(k="hang", v=[], data=[])] for s in t] for t in rounds[i]["threads"]]
        if os.path.exists(st):
            os.unlink(st)
    ts = [threading.Thread(target=work, args=(w, 4)) for w in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    os.unlink(path)
    if len(out) < len(rounds) and not any(e["k"] == "hang" for r in out.values() for t in r for s in t for e in s):
        raise ToolError("%d of %d rounds were run" % (len(out), len(rounds)))
    return [out.get(i, []) for i in range(len(rounds))]


def round_traces(rounds, replies):
    """the sessions of all threads, as recorded"""
    out = []
    for r, g in zip(rounds, replies):
        for t, tg in zip(r["threads"], g):
            for s, past in zip(t, tg):
                if past:
                    out.append(dict(id=len(out), profile="threads", history="one of several threads", ev=[
                        lib.recorded(e, x) for e, x in zip(s, past)]))
    return out


def hunt(prop, bins, seed, seconds):
    if prop == "C32":
        return search(bins, "hunt-" + prop,
                      lambda w, n, status: ["hunt_rounds", str(seed), str(w), str(n), str(seconds), status], lambda i: dict(round=printed(bins, ["gen_rounds", seed, i, i + 1, 0])[0]))

    def regen(i):
        if i >> 63:
            cmd = ["fixed", prop, str(seed), "2", str(i & ~(1 << 63))]
        else:
            cmd = ["gen", prop, str(seed), str(i), str(i + 1), "0"]
        o = subprocess.run([bins["release"]] + cmd, stdout=subprocess.PIPE, text=True, timeout=60).stdout
        return json.loads(o.splitlines()[0])
    return search(bins, "hunt-" + prop,
                  lambda w, n, status: ["hunt", prop, str(seed), str(w), str(n), str(seconds), status], regen)


def replay_scripts(prop, bins, lines):
    """replays scripts with specified replies into the code; each script runs in one of the two builds"""
    path = os.path.join(lib.BUILD, "scripts-%s-%d" % (prop, os.getpid()))
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        suspects, total = search(bins, "replay-" + prop, lambda w, n, status: ["replay", path, str(w), str(n), status],
                                 lambda i: dict(ev=[x["e"] for x in json.loads(lines[i])]))
    finally:
        os.unlink(path)
    if not suspects and total[0] != len(lines):
        raise ToolError("%d of %d scripts were replayed" % (total[0], len(lines)))
    for s in suspects:
        s["ev"] = models.witnesses(s["ev"])
    return suspects, total


def judge(prop, bins, suspects, stats):
    """the specification decides about suspects, smallest first"""
    lost = [s["round"] for s in suspects if "round" in s]
    suspects = [s for s in suspects if "round" not in s]
    if lost:
        # threads that did not finish: once more, with a time limit
        fail = validate_all(round_traces(lost, run_rounds(prop, bins, lost)), prop, stats)
        if fail:
            return fail
    # a very long one is judged alone
    cuts = [0, 1, 2, 4, 8, 12] if suspects and len(json.dumps(suspects[0])) > 500000 else [0, 4, 8, 12]
    for j, to in zip(cuts, cuts[1:]):
        if j >= len(suspects):
            break
        rs, _ = run_both(bins, suspects[j:to], prop)
        fail = validate_all(rs, prop, stats)
        if fail:
            return fail
        # a reply that cannot be had again by the script alone depends on what was called before it: judge it as it was recorded
        rs = [dict(id=s["id"], profile="search", history="found in a process that had run other scripts before",
                   ev=[lib.recorded(e, r) for e, r in zip(s["ev"], s["re"])]) for s in suspects[j:to] if "re" in s]
        fail = validate_all(rs, prop, stats)
        if fail:
            return fail
    return None


def canon(rec):
    return json.dumps([[e.get("k"), e.get("v"), e.get("data")] for e in rec["ev"]])


def run_both(bins, sessions, name):
    """runs with both profiles; returns what has to be validated: all of 'checked', of 'release' what differs"""
    res = {}
    for prof in ("checked", "release"):
        res[prof] = lib.run_sessions(bins[prof], sessions)
    seen = {r["id"]: canon(r) for r in res["checked"]}
    extra = [r for r in res["release"] if seen.get(r["id"]) != canon(r)]
    for r in res["checked"]:
        r["profile"] = "checked"
    for r in extra:
        r["profile"] = "release"
    # relational replies (OAEP seeds) may differ between runs: then both are validated
    return res["checked"] + extra, len(res["release"])


def report(prop, fail, how):
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(lib.VERIF, "evidence", "replay-%s.json" % prop)
    ses = fail["session"]
    with open(path, "w") as f:
        json.dump(dict(property=prop, found_by=how, profile=ses.get("profile"), history=ses.get("history"), domain=fail["domain"], event=fail["event"],
                       expected=fail["expected"], session=ses["ev"]), f)
    e = ses["ev"][fail["event"] - 1]
    log("found by " + how)
    log("event %d of the session violates the specification:" % fail["event"])
    log("  call and recorded reply:", json.dumps(trim(e)))
    log("  specified reply:", fail["expected"][:600])
    log("VIOLATION property=%s replay=%s" % (prop, path))


def replay(prop, path):
    r = json.load(open(path))
    bins = lib.build()
    ev = [{k: v for k, v in e.items() if k not in ("k", "v", "mid", "tail", "len")} for e in r["session"]]
    rec, _ = run_both(bins, [dict(ev=ev)], "replay")
    stats = dict(states=0, transitions=0, traces=0)
    fail = validate_all(rec, "replay", stats)
    if fail:
        report(prop, fail, "replay")
        return 1
    log("the recorded session conforms on this tree")
    return 0


def batches(recorded, limit):
    """splits recorded sessions into batches of about limit bytes, in order"""
    out, size = [], 0
    for r in recorded:
        n = len(json.dumps(r["ev"]))
        if not out or size + n > limit:
            out.append([])
            size = 0
        out[-1].append(r)
        size += n
    return out


def printed(bins, args):
    o = subprocess.run([bins["release"]] + [str(a) for a in args], stdout=subprocess.PIPE, text=True, check=True).stdout
    return [json.loads(l) for l in o.splitlines()]


def main():
    prop = sys.argv[1]
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--replay" in sys.argv:
        sys.exit(replay(prop, sys.argv[sys.argv.index("--replay") + 1]))
    for k in known_findings(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, k))

    def said(*a):
        log("[%.1f s]" % (time.monotonic() - t0), *a)

    # what changed since this machinery was written: only steers the search
    changed, nums, texts = focus.focus()
    if changed:
        said("changed files: %s; numbers and texts in focus: %r %r" % (" ".join(changed), nums[:20], texts[:20]))
    os.environ["VERIF_FOCUS"] = focus.environment(nums, texts)

    # design models, while the harness is built
    os.makedirs(lib.BUILD, exist_ok=True)
    mods = models.MODELS.get(prop, [])
    modout = {}

    def run_model(m):
        try:
            modout[m] = models.run(m, tier, 8 if len(mods) == 1 else 4)
        except Exception as ex:
            modout[m] = ex if isinstance(ex, ToolError) else ToolError("model %s: %r" % (m, ex))
    modts = [threading.Thread(target=run_model, args=(m,), daemon=True) for m in mods]
    for t in modts:
        t.start()
    bins = lib.build()
    said("built")
    cfg = gens.budget(prop, tier, bool(changed))
    stats = dict(states=0, transitions=0, traces=0)
    cov = dict(design_models=[], scripts={})
    samples, released = [], [0]
    fail, how = None, "trace validation"

    # calls that take long (messages above 2^32 bits and the like) run in the background, release build only
    farout = []
    fars = gens.far(prop, tier)

    def run_far():
        try:
            farout.append(lib.run_sessions(bins["release"], fars, workers=3, event_timeout=400.0))
        except ToolError as ex:
            farout.append(ex)
    fart = threading.Thread(target=run_far, daemon=True)
    if fars:
        fart.start()

    lines = []
    for t in modts:
        t.join()
    for m in mods:
        r = modout[m]
        if isinstance(r, ToolError):
            raise r
        cov["design_models"].append(dict(model="MC_" + m, config=r["config"], states=r["distinct"], transitions=r["states"],
                                         seconds=round(r["wall"], 1), scripts=len(r["scripts"])))
        stats["states"] += r["distinct"]
        stats["transitions"] += r["states"]
        lines += r["scripts"]
    said("design models:", ", ".join("%(model)s (%(states)d states, %(seconds)s s)" % d for d in cov["design_models"]))
    if lines and prop == "C32":
        rounds = [json.loads(l) for l in lines]
        plain = [dict(order=r.get("order", []), nests=r.get("nests", []), relay=r.get("relay", 0), threads=[[[x["e"] for x in t]] for t in r["threads"]]) for r in rounds]
        got = run_rounds(prop, bins, plain)
        bad = [(p, g) for r, p, g in zip(rounds, plain, got)
               if any([(x["r"]["k"], x["r"]["v"]) for x in t] != [(x["k"], x["v"]) for x in re[0]] for t, re in zip(r["threads"], g))]
        cov["generated_schedules_replayed"] = dict(schedules=len(got), calls=sum(len(t) for r in rounds for t in r["threads"]), suspects=len(bad))
        stats["traces"] += len(got)
        said("generated schedules replayed: %r" % cov["generated_schedules_replayed"])
        samples.append(trim(rounds[len(rounds) // 2], 24))
        if bad:
            fail = validate_all(round_traces([b[0] for b in bad[:50]], [b[1] for b in bad[:50]]), prop, stats)
            how = "replay of schedules generated from the specification, then trace validation"
            if not fail:
                raise ToolError("a generated schedule gives other replies than specified, but its traces are valid: %r" % bad[0][0])
    elif lines:
        # scripts generated by TLC from the specification, replayed into the code
        suspects, tot = replay_scripts(prop, bins, lines)
        cov["generated_scripts_replayed"] = dict(scripts=tot[0], calls=tot[1], suspects=len(suspects))
        stats["traces"] += tot[0]
        said("generated scripts replayed: %r" % cov["generated_scripts_replayed"])
        samples.append(trim(json.loads(lines[len(lines) // 2]), 24))
        if suspects:
            fail = judge(prop, bins, suspects, stats)
            how = "replay of scripts generated from the specification, then trace validation"
            if not fail:
                raise ToolError("a generated script gives other replies than specified, but its trace is valid: %r" % suspects[0])

    # scripts replayed into the code, traces validated against the specification
    groups = {}
    if prop == "C32":
        if not fail:
            rs = printed(bins, ["gen_rounds", seed, 0, cfg["sample"] // 2, 1])
            got = run_rounds(prop, bins, rs)
            for b in batches(round_traces(rs, got), 24 << 20):
                fail = validate_all(b, prop, stats)
                if fail:
                    how = "trace validation, threads"
                    break
            cov["scripts"]["rounds of several threads"] = len(rs)
            said("threads: %d rounds run, traces validated" % len(rs))
    else:
        groups["enumerated"] = printed(bins, ["fixed", prop, seed, 0])
        groups["random"] = printed(bins, ["gen", prop, seed, 0, cfg["sample"], 1])
    if tier == "thorough" and groups:
        more = printed(bins, ["fixed", prop, seed, 1])
        step = max(1, len(more) // cfg["more"])
        groups["enumerated, larger set"] = more[seed % step::step]
    for g, ss in ({} if fail else groups).items():
        for i, s in enumerate(ss):
            s["id"] = i
        rec, n = run_both(bins, ss, prop)
        released[0] += n
        if rec:
            samples.append(trim(rec[len(rec) // 2]["ev"], 24))
        for b in batches(rec, 24 << 20):
            fail = validate_all(b, prop, stats)
            if fail:
                break
        cov["scripts"][g] = len(ss)
        said("%s: %d scripts run, traces validated" % (g, len(ss)))
        if fail:
            how = "trace validation, %s scripts" % g
            break
        if any(e["k"] in ("hang", "abort") for r in rec for e in r["ev"]):
            raise ToolError("a hang or abort was accepted")
    hs = dict(sessions=0, events=0, suspects=0)
    if not fail and cfg["hunt"] > 0:
        suspects, tot = hunt(prop, bins, seed, cfg["hunt"])
        hs = dict(sessions=tot[0], events=tot[1], enumerated=tot[2], suspects=len(suspects), seconds=cfg["hunt"])
        said("search: %r" % hs)
        fail = judge(prop, bins, suspects, stats)
        if fail:
            how = "search, then trace validation"
    cov["search"] = hs
    if fars and not fail:
        fart.join()
        if isinstance(farout[0], ToolError):
            raise farout[0]
        cov["scripts"]["long-running calls"] = len(fars)
        for r in farout[0]:
            r["profile"] = "release"
        fail = validate_all(farout[0], prop, stats)
        said("long-running calls: %d validated" % len(fars))
        if fail:
            how = "trace validation, long-running calls"
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=stats["states"], transitions=stats["transitions"],
                            traces_validated_against_impl=stats["traces"], samples=samples,
                            scripts_run_release_build=released[0], **cov),
              assumptions=gens.ASSUMPTIONS.get(prop, []) + gens.COMMON,
              wall_s=round(time.monotonic() - t0, 1), violations=1 if fail else 0)
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(lib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    lib.end_children()
    if fail:
        report(prop, fail, how)
        sys.exit(1)
    said("property %s held: %d states, %d traces validated, %d searched scripts" %
         (prop, stats["states"], stats["traces"], hs["sessions"]))


if __name__ == "__main__":
    try:
        main()
    except ToolError as ex:
        log("TOOL-ERROR: %s" % ex)
        sys.exit(2)
