#!/usr/bin/env python3
"""check.py <property> : decide one property of the tree in /repo (see DESIGN.md).

Builds the instrumented harness from /repo's working tree, runs the monitored workload in several
worker processes, confirms and reports violations, and writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: error."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = 8

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


def err(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- building

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def build(deterministic=False, cli=False):
    """Build from the current content of /repo; never trusts an older build of other content."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        name = "cli" if cli else ("det" if deterministic else "std")
        target = os.path.join(BUILD, name)
        want = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"),
                          os.path.join(HARNESS, "src"), os.path.join(HARNESS, "shim"),
                          os.path.join(HARNESS, "Cargo.toml"),
                          os.path.join(HARNESS, "rustc-wrap.sh")])
        stamp = os.path.join(target, "content-hash")
        exe = os.path.join(target, "release", "jotdown" if cli else "vharness")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            for prof in ("release",):
                fp = os.path.join(target, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if re.match(r"(jotdown|shim|vharness)-", d):
                            shutil.rmtree(os.path.join(fp, d))
            if os.path.exists(stamp):
                os.unlink(stamp)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        if cli:
            cmd = ["cargo", "build", "--release", "--offline", "--features", "cli", "--bin",
                   "jotdown", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        else:
            env["RUSTC_WRAPPER"] = os.path.join(HARNESS, "rustc-wrap.sh")
            cmd = ["cargo", "build", "--release", "--offline", "--manifest-path",
                   os.path.join(HARNESS, "Cargo.toml")]
            if deterministic:
                cmd += ["--features", "deterministic"]
        lockfile = os.path.join(REPO, "Cargo.lock")
        had_lock = os.path.exists(lockfile)
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not had_lock and os.path.exists(lockfile):
            os.unlink(lockfile)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            err("build failed")
        with open(stamp, "w") as f:
            f.write(want)
        return exe


# ---------------------------------------------------------------- dictionary of literals

def unescape(s):
    out = bytearray()
    i = 0
    simple = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, "'": 39, '"': 34}
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c.encode()
            i += 1
            continue
        n = s[i + 1: i + 2]
        if n == "x":
            try:
                out.append(int(s[i + 2:i + 4], 16) & 0x7F)
            except ValueError:
                pass
            i += 4
        elif n == "u":
            m = re.match(r"\\u\{([0-9a-fA-F_]+)\}", s[i:])
            if m:
                try:
                    out += chr(int(m.group(1).replace("_", ""), 16)).encode()
                except (ValueError, UnicodeEncodeError):
                    pass
                i += m.end()
            else:
                i += 2
        elif n == "\n":
            i += 2
            while i < len(s) and s[i].isspace():
                i += 1
        else:
            if n in simple:
                out.append(simple[n])
            i += 2
    return bytes(out)


TOKEN = re.compile(
    r'(?P<c>//[^\n]*|/\*.*?\*/)'
    r'|b?r(?P<h>#*)"(?P<raw>.*?)"(?P=h)'
    r'|b?"(?P<s>(?:[^"\\]|\\.)*)"'
    r"|b?'(?P<ch>[^'\\]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))'"
    r"|\b(?P<n>0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b", re.S)


def dictionary(path):
    nums, strs = set(), set()
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith(".rs") or f.startswith("test_"):
                continue
            for m in TOKEN.finditer(open(os.path.join(d, f), encoding="utf-8").read()):
                if m.group("s") is not None:
                    strs.add(unescape(m.group("s")))
                elif m.group("raw") is not None:
                    strs.add(m.group("raw").encode())
                elif m.group("ch") is not None:
                    strs.add(unescape(m.group("ch")))
                elif m.group("n") is not None:
                    try:
                        nums.add(int(m.group("n").replace("_", ""), 0))
                    except ValueError:
                        nums.add(int(m.group("n").replace("_", "").lstrip("0") or "0"))
    with open(path, "w") as o:
        for n in sorted(nums):
            if n < 10 ** 7:
                o.write(f"n {n}\n")
        for s in sorted(strs):
            if 0 < len(s) <= 40:
                o.write(f"s {s.hex()}\n")


# ---------------------------------------------------------------- running

def signame(rc):
    if rc == 77:
        return "the step budget of the case was exceeded (no progress)"
    if rc == 78:
        return "the case exhausted memory (more than 3 GiB live)"
    if rc < 0:
        try:
            return f"the process was killed by {signal.Signals(-rc).name}"
        except ValueError:
            return f"the process was killed by signal {-rc}"
    return f"the process exited with {rc}"


def one(exe, prop, mode, data, scratch, dictf, timeout=240):
    f = os.path.join(scratch, f"case-{os.getpid()}-{time.time_ns()}.hex")
    with open(f, "w") as o:
        o.write(data.hex())
    try:
        r = subprocess.run([exe, "one", "--prop", prop, "--mode", mode, "--hexfile", f,
                            "--dict", dictf, "--show", "1", "--seed", str(SEED)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, ""


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if prop in k["properties"]]


def finding_input(k):
    if "hex" in k:
        return bytes.fromhex(k["hex"])
    return b"".join(bytes.fromhex(h) * n for h, n in k["repeat"])


def check_known(exe, prop, scratch, dictf):
    """Replays every listed finding; prints the ones that still fail. Returns how many do."""
    n = 0
    for k in known_findings(prop):
        rc, out = one(exe, k.get("monitor", prop), "text", finding_input(k), scratch, dictf)
        if rc not in (0, None):
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
            n += 1
    return n


def replay_path(prop, tag):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{prop}-{tag}.json")


def violation(prop, info):
    tag = hashlib.sha256(json.dumps(info, sort_keys=True).encode()).hexdigest()[:12]
    path = replay_path(prop, tag)
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
    print("case:", repr(info.get("case", ""))[:1500])
    print("observed:", info.get("message", "")[:3000])
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def run_workers(exe, prop, cfg, scratch, dictf):
    tier = cfg[TIER] if TIER in cfg else cfg["quick"]
    secs, execs = tier["secs"], tier.get("execs", 10 ** 9)
    procs = []
    for i in range(NPROC):
        crash = os.path.join(scratch, f"crash.{i}")
        out = open(os.path.join(scratch, f"out.{i}"), "wb")
        cmd = [exe, "worker", "--prop", prop, "--secs", str(secs), "--execs", str(execs),
               "--seed", str(SEED), "--shard", str(i), "--nshards", str(NPROC), "--tier", TIER,
               "--seeds", os.path.join(HARNESS, "corpus", "seeds.hex"), "--dict", dictf,
               "--crash", crash, "--sigs", os.path.join(scratch, f"sigs.{i}")]
        procs.append(subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, cwd=scratch))
    deadline = time.time() + secs * 2 + 120
    stalled = set()
    found = False
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if not found:
            for i, p in enumerate(procs):
                if p.poll() is not None and \
                        b"\nFAIL " in b"\n" + open(os.path.join(scratch, f"out.{i}"), "rb").read():
                    found = True
                    deadline = min(deadline, time.time() + 2)
        if time.time() > deadline:
            for i, p in enumerate(procs):
                if p.poll() is None:
                    p.kill()
                    stalled.add(i)
    for p in procs:
        p.wait()
    results = []
    for i, p in enumerate(procs):
        txt = open(os.path.join(scratch, f"out.{i}"), "rb").read().decode("utf-8", "replace")
        r = {"rc": p.returncode, "stalled": i in stalled, "shard": i}
        for line in txt.split("\n"):
            for k in ("FOUND", "FAIL", "STAT"):
                if line.startswith(k + " "):
                    try:
                        r[k] = json.loads(line[len(k) + 1:])
                    except json.JSONDecodeError:
                        pass
        results.append(r)
    return results


def main():
    if sys.argv[1:] == ["setup"]:
        build()
        if any(c.get("deterministic") for c in PROPS.values()):
            build(deterministic=True)
        if any(c.get("cli") for c in PROPS.values()):
            build(cli=True)
        return
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        err("usage: check.py <property>")
    prop = sys.argv[1]
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        rc = run(prop, cfg, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, cfg, scratch, t0):
    built = build(deterministic=cfg.get("deterministic", False))
    exe = os.path.join(scratch, "vharness")
    shutil.copy2(built, exe)
    if cfg.get("needs_std"):
        shutil.copy2(build(), os.path.join(scratch, "vharness-std"))
    if cfg.get("cli"):
        cli = os.path.join(scratch, "jotdown")
        shutil.copy2(build(cli=True), cli)
        os.environ["VERIF_CLI"] = cli
    os.environ["VERIF_SCRATCH"] = scratch
    dictf = os.path.join(scratch, "dict.txt")
    dictionary(dictf)
    known = check_known(exe, prop, scratch, dictf)
    results = run_workers(exe, prop, cfg, scratch, dictf)

    # violations reported by the monitors
    fails = [r.get("FAIL") or r.get("FOUND") for r in results if "FAIL" in r or "FOUND" in r]
    if fails:
        fails.sort(key=lambda f: len(f["hex"]))
        evidence(prop, cfg, results, scratch, exe, t0, 1, known)
        violation(prop, fails[0])
        return 1
    # workers that died: the case they were running is in their crash file
    unexplained = []
    for r in results:
        if r["rc"] == 0 and "STAT" in r:
            continue
        if r["stalled"]:
            unexplained.append(f"worker {r['shard']} did not finish in time")
            continue
        try:
            b = open(os.path.join(scratch, f"crash.{r['shard']}"), "rb").read()
            mode = "tape" if b[0] == 1 else "text"
            data = b[9:9 + int.from_bytes(b[1:9], "little")]
        except (OSError, IndexError):
            unexplained.append(f"worker {r['shard']}: {signame(r['rc'])}")
            continue
        rc2, out = one(exe, prop, mode, data, scratch, dictf)
        if rc2 not in (0, None):
            info = {"property": prop, "mode": mode, "hex": data.hex(),
                    "case": data.decode("utf-8", "replace") if mode == "text" else out[:5000],
                    "message": signame(rc2) if rc2 != 1 else out[:3000], "seed": SEED,
                    "dict": open(dictf).read()}
            evidence(prop, cfg, results, scratch, exe, t0, 1, known)
            violation(prop, info)
            return 1
        unexplained.append(f"worker {r['shard']}: {signame(r['rc'])}, not reproduced on its case")
    ev = evidence(prop, cfg, results, scratch, exe, t0, 0, known)
    if unexplained:
        err("; ".join(unexplained))
    if ev["coverage"]["evaluations"] < cfg.get("min_evals", 50) or \
            ev["coverage"]["distinct_nontrivial"] < cfg.get("min_distinct", 10):
        err("too little was observed to decide anything")
    c = ev["coverage"]
    print(f"{prop}: held on {c['evaluations']} evaluations "
          f"({c['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s")
    return 0


def evidence(prop, cfg, results, scratch, exe, t0, violations, known):
    stats = [r["STAT"] for r in results if "STAT" in r]
    counters = {}
    for s in stats:
        for k, v in s["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
    sigs = [os.path.join(scratch, f"sigs.{r['shard']}") for r in results]
    sigs = [s for s in sigs if os.path.exists(s)]
    distinct = 0
    if sigs:
        o = subprocess.run([exe, "merge", "--files", ",".join(sigs)], stdout=subprocess.PIPE)
        distinct = int(o.stdout or b"0")
    samples = [x for s in stats for x in s["samples"][-2:]][:8]
    cov = {
        "evaluations": sum(s["evals"] for s in stats),
        "distinct_nontrivial": distinct,
        "nontrivial": sum(s["nontrivial"] for s in stats),
        "rule": stats[0]["rule"] if stats else "no worker finished",
        "samples": samples,
        "observed": counters,
        "workers": len(stats),
        "known_findings_confirmed": known,
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
          "seed": SEED, "level": cfg.get("level", "exploration"), "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + [
              "holds for the executions observed in this run, not for all inputs"],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    return ev


if __name__ == "__main__":
    main()
