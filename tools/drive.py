"""Builds the harness, runs sessions against the library and checks the
recorded traces against the specification with TLC."""
import errno, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import enc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TV_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, ".build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPU = max(2, min(8, os.cpu_count() or 2))
NOBODY = 65534

class Trouble(Exception):
    """the check itself could not be carried out"""

def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0")
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin"
    env.setdefault("HOME", "/root")
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    src = os.path.join(HERE, "harness")
    if REPO != "/repo":      # development: another tree
        env["TV_X"] = REPO
        dst = os.path.join(tempfile.gettempdir(), "tv-harness-" + re.sub(r"\W", "_", REPO))
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(dst, "Cargo.toml")
        t = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(p, "w").write(t)
        src = dst
        target = os.path.join(dst, "target")
    env["CARGO_TARGET_DIR"] = target
    # cargo trusts modification times; make it look at the sources again
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("templito-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode("utf8", "replace")[-4000:])
        raise Trouble("the harness does not build")
    return os.path.join(target, "debug", "tvharness")

class Scratch:
    """A scratch directory below /tmp which an unprivileged user owns."""
    def __init__(self, root=None):
        self.lock, self.exe = threading.Lock(), None
        if root is None:
            self.root = tempfile.mkdtemp(prefix="tv-", dir="/tmp")
        else:
            self.root = root
            os.makedirs(root)
        os.chmod(self.root, 0o755)
        self.fs = os.path.join(self.root, "f")
        os.makedirs(self.fs, exist_ok=True)
        if os.getuid() == 0:
            try:
                os.chown(self.fs, NOBODY, NOBODY)
            except OSError:
                pass
    def place(self, binary):
        """a copy of the harness the unprivileged user can run; made once,
        since a file that some process still has open for writing does not run"""
        with self.lock:
            if self.exe is None:
                exe = os.path.join(self.root, "tvharness")
                shutil.copy(binary, exe)
                os.chmod(exe, 0o755)
                self.exe = exe
        return self.exe
    def base(self, name):
        """a place for a session's folder, some levels down"""
        return "%s/%s/p/q/w" % (self.fs, name)
    def close(self):
        assert self.root.startswith("/tmp/tv-")
        shutil.rmtree(self.root, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

def _demote():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass

def _harness(binary, sess_file, out_file, first, secs, cwd):
    env = {"PATH": "/usr/bin:/bin", "TV_ENV_A": "alpha beta", "TV_ENV_E": "", "LANG": "C.UTF-8", "HOME": cwd}
    for k in range(20):
        try:
            p = subprocess.Popen([binary, sess_file, out_file, str(first), str(secs)], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=_demote)
            return p.wait()
        except OSError as e:      # busy: a child being started elsewhere still holds it open
            if e.errno != errno.ETXTBSY or k == 19: raise
            time.sleep(.1)

def _read(out_file):
    res = {}
    with open(out_file, encoding="utf8") as fh:
        for line in fh:
            if line.endswith("\n"):
                d = json.loads(line)
                res[(d["s"], d["k"])] = d
    return res

def execute(binary, sessions, scratch, tag="x", secs=10):
    """adds res and ev to every operation that ran; an operation that ended
    the process gets {"o": "crash"}; later operations are cut off"""
    cwd = os.path.join(scratch.root, "cwd-" + tag)
    os.makedirs(cwd, exist_ok=True)
    os.chmod(cwd, 0o755)
    exe = scratch.place(binary)
    sf = os.path.join(cwd, "sessions")
    of = os.path.join(cwd, "out")
    with open(sf, "w") as fh:
        for x in sessions:
            fh.write(json.dumps(x) + "\n")
    open(of, "w").close()
    os.chmod(of, 0o666)
    first = 0
    while first < len(sessions):
        rc = _harness(exe, sf, of, first, secs, cwd)
        if rc == 0:
            break
        res = _read(of)
        last = max(res) if res else (-1, 0)
        if rc == 3:                       # hang, reported in the output
            first = last[0] + 1
            continue
        # died: the operation after the last one reported
        s_, k_ = last
        if s_ < first or res[last]["res"]["o"] in ("panic", "hang") or k_ + 1 >= len(sessions[s_]["ops"]):
            s_, k_ = (first if s_ < first else s_ + 1), 0
        else:
            k_ += 1
        if s_ >= len(sessions):
            break
        with open(of, "rb+") as fh:       # drop a torn last line
            data = fh.read()
            if data and not data.endswith(b"\n"):
                fh.truncate(data.rfind(b"\n") + 1)
        with open(of, "a") as fh:
            fh.write(json.dumps({"s": s_, "k": k_, "res": {"o": "crash"}, "ev": []}) + "\n")
        first = s_ + 1
    res = _read(of)
    for n, x in enumerate(sessions):
        ops = []
        for k, o in enumerate(x["ops"]):
            r = res.get((n, k))
            if r is None:
                break
            o = dict(o)
            o["res"] = r["res"]
            if o["op"] in ("render", "front"):
                o["ev"] = r["ev"]
            ops.append(o)
        x["ops"] = ops
    return sessions

def tlc(module, cfg=None, env=None, cwd=SPEC, workers=1, heap="2500m", extra=(), timeout=3000):
    md = tempfile.mkdtemp(prefix="tv-md-", dir="/tmp")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + md, "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-nowarning", "-workers", str(workers)]
        if cfg:
            cmd += ["-config", cfg]
        cmd += list(extra) + [module]
        try:
            r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Trouble("TLC took longer than %d s" % timeout)
        return r.returncode, r.stdout.decode("utf8", "replace")
    finally:
        shutil.rmtree(md, ignore_errors=True)

def tidy(out):
    """TLC's messages without the states"""
    keep, on = [], True
    for x in out.splitlines():
        if x.startswith(("State ", "Parsing", "Semantic", "Linting", "Computed")): on = False
        elif x.startswith("Error") or "Finished" in x: on = True
        if on: keep.append(x[:300])
    return "\n".join(keep)[-3000:]

class Stats:
    def __init__(self): self.states = self.generated = self.gaveup = self.traces = 0
    def __str__(self): return "states %d generated %d gave up %d" % (self.states, self.generated, self.gaveup)

def slim(x):
    """only the outcomes matter in a session of the kind total"""
    if x["mode"] != "total": return x
    return dict(x, ops=[{"op": o["op"], "res": {"o": o["res"]["o"]}} for o in x["ops"]])

def _check_shard(sessions, path, debug=False, workers=1, stats=None, timeout=3000):
    """[(index, how far it got)] of the sessions TLC does not accept"""
    with open(path, "w") as fh:
        for x in sessions:
            fh.write(json.dumps(slim(x)) + "\n")
    rc, out = tlc("Trace.tla", "Trace.cfg", {"TRACE": path, "TRACE_DEBUG": "1" if debug else "0"}, workers=workers, timeout=timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    done = "Finished computing initial states" in out and m and not re.search(r"^Error: (?!Assumption|Post|The postcondition|Postcondition)", out, re.I | re.M)
    if not done:
        # the specification cannot make sense of something in some session
        if not re.search(r"Error: (TLC threw an unexpected exception|The error occurred when TLC was evaluating|Evaluating|TLC was unable to fingerprint|Attempted)", out) \
           or re.search(r"OutOfMemory|StackOverflow|No space left", out):
            raise Trouble("TLC failed on a trace:\n" + tidy(out))
        if len(sessions) == 1:
            return [(1, 0)], out
        h = max(1, (len(sessions) + 3) // 4)
        rej = []
        for k in range(0, len(sessions), h):
            r, o = _check_shard(sessions[k:k + h], path + "." + str(k // h), debug, workers, stats, timeout)
            rej += [(k + a, b) for a, b in r]
            out += o
        return rej, out
    if stats is not None:
        stats.generated += int(m.group(1))
        stats.states += int(m.group(2))
        stats.gaveup += len(re.findall(r'<<"GAVEUP"', out))
        stats.traces += len(sessions)
    return [(int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), "[^"]*", (\d+)>>', out)], out

def check(sessions, scratch, shards=None, workers=1, timeout=3000):
    """TLC over all sessions: ([(session, progress)] rejected, statistics)"""
    st = Stats()
    if not sessions:
        return [], st
    if shards is None:
        shards, workers = 2, max(1, CPU // 2)
    n = min(shards, len(sessions))
    parts = [sessions[k::n] for k in range(n)]
    def one(k):
        rej, _ = _check_shard(parts[k], os.path.join(scratch.root, "trace%d.ndjson" % k), False, workers, st, timeout)
        return [(parts[k][a - 1], b) for a, b in rej]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    return [x for r in rs for x in r], st

def explain(sess, scratch):
    """what the specification expected where the session left it"""
    if sess["mode"] == "total":
        return "an operation neither succeeded nor failed"
    _, out = _check_shard([sess], os.path.join(scratch.root, "explain.ndjson"), True)
    i = out.find('"STUCK"')
    return out[max(0, i - 3):i + 3000].split("\nModel checking")[0].split("\n<<\"REJECT")[0] if i >= 0 else tidy(out)

def parallel_execute(binary, sessions, scratch, secs=10):
    n = min(CPU, max(1, len(sessions) // 4))
    parts = [sessions[k::n] for k in range(n)]
    originals = [json.dumps(x) for x in sessions]
    scratch.place(binary)
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda k: execute(binary, parts[k], scratch, str(k), secs), range(n)))
    # an operation that seemed to hang gets a second, longer, lonely chance
    again = [x for x in sessions if any(o["res"]["o"] == "hang" for o in x["ops"])]
    for k, x in enumerate(again[:5]):
        full = originals[sessions.index(x)]
        y = execute(binary, [json.loads(full)], scratch, "again%d" % k, 4 * secs)[0]
        x["ops"] = y["ops"]
    return sessions
