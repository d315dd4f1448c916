"""Shared machinery of the checks: building the generator from /repo's working tree, scratch space,
parallel execution, evidence, replays, known findings and the exit protocol."""
import atexit, concurrent.futures as cf, hashlib, json, multiprocessing as mp, os, re, shutil, signal
import subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
NCPU = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 8
LIB = os.path.join(VERIF, "lib")


class CheckError(Exception):
    """The check itself cannot give an answer (exit 2)."""


def _scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 3 << 30:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


# ------------------------------------------------------------------ building the generator
VARIANTS = {
    "plain": ["-O1"],
    "zero": ["-O1", "-ftrivial-auto-var-init=zero"],
    "pattern": ["-O1", "-ftrivial-auto-var-init=pattern"],
    "asan": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,bounds,return,unreachable,vla-bound,bool,enum",
             "-fno-sanitize-recover=all"],
}


def _sources():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "test") and not d.startswith("build"))
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx", ".c")):
                out.append(os.path.join(root, f))
    return out


def src_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, SRC).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_coderdbc(variant="plain"):
    """Compiles the CLI from /repo/src (every non-test source file) outside /repo; cached by content."""
    flags = VARIANTS[variant]
    with open(os.path.join(LIB, "contain.c")) as f:
        contain = f.read()
    key = hashlib.sha256((src_hash() + variant + " ".join(flags) + contain).encode()).hexdigest()[:20]
    cache = os.path.join(VERIF, ".build")
    exe = os.path.join(cache, "coderdbc-%s-%s" % (variant, key))
    if os.path.exists(exe):
        return exe
    os.makedirs(cache, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vb-", dir=_scratch_root())
    try:
        srcs = _sources()
        base = ["g++", "-std=c++17", "-w", "-I", SRC] + flags

        def one(i_s):
            i, s = i_s
            o = os.path.join(tmp, "%d.o" % i)
            cmd = base + (["-x", "c++"] if s.endswith(".c") else []) + ["-c", s, "-o", o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            return o, r.returncode, r.stderr
        cobj = os.path.join(tmp, "contain.o")
        r = subprocess.run(["gcc", "-w", "-O1", "-c", os.path.join(LIB, "contain.c"), "-o", cobj], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("the containment object does not compile: " + r.stderr)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, enumerate(srcs)))
        bad = [r for r in res if r[1]]
        r = None
        if not bad:
            r = subprocess.run(base + [x[0] for x in res] + [cobj, "-o", os.path.join(tmp, "coderdbc")],
                               capture_output=True, text=True)
        if bad or r.returncode:
            # fall back to the project's own build description
            r = _cmake_build(tmp, flags + [cobj])
        os.chmod(os.path.join(tmp, "coderdbc"), 0o755)
        os.replace(_copy(os.path.join(tmp, "coderdbc"), exe + ".%d" % os.getpid()), exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for f in os.listdir(cache):   # keep the cache small
        p = os.path.join(cache, f)
        if f.startswith("coderdbc-") and p != exe and time.time() - os.path.getmtime(p) > 7200:
            try:
                os.unlink(p)
            except OSError:
                pass
    return exe


def _copy(a, b):
    shutil.copy2(a, b)
    return b


def _cmake_build(tmp, flags):
    b = os.path.join(tmp, "cm")
    r = subprocess.run(["cmake", "-S", SRC, "-B", b, "-G", "Ninja", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                        "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest", "-DINSTALL_GTEST=OFF",
                        "-DCMAKE_CXX_FLAGS=" + " ".join(f for f in flags if not f.endswith(".o")),
                        "-DCMAKE_EXE_LINKER_FLAGS=" + " ".join(f for f in flags if f.endswith(".o"))], capture_output=True, text=True)
    if r.returncode == 0:
        r = subprocess.run(["ninja", "-C", b, "coderdbc"], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("the generator does not build:\n" + (r.stdout + r.stderr)[-4000:])
    for root, _, files in os.walk(b):
        if "coderdbc" in files and os.access(os.path.join(root, "coderdbc"), os.X_OK):
            shutil.copy2(os.path.join(root, "coderdbc"), os.path.join(tmp, "coderdbc"))
            return r
    raise CheckError("the generator was not produced by its build")


# ------------------------------------------------------------------ running things
class Res:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "rc=%s%s out=%r err=%r" % (self.rc, " TIMEOUT" if self.timeout else "", self.out[-400:], self.err[-400:])


def run(cmd, timeout=60, retry=True, cwd=None, env=None, input=None):
    """Runs a command; a timeout is re-tried once, alone in its worker and with a much longer limit,
    before it is believed."""
    for t in ((timeout, timeout * 4) if retry else (timeout,)):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                             stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL)
        try:
            o, e = p.communicate(input, timeout=t)
            return Res(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"))
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
    return Res(-9, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), True)


def gen(exe, dbc, out, drv="drv", opts=("-rw",), timeout=60, dbcname="in.dbc", env=None):
    """Writes the DBC text next to the output directory and runs the generator on it."""
    os.makedirs(out, exist_ok=True)
    path = os.path.join(os.path.dirname(out), dbcname)
    with open(path, "wb") as f:
        f.write(dbc if isinstance(dbc, bytes) else dbc.encode())
    return run([exe, "-dbc", path, "-out", out, "-drvname", drv] + list(opts), timeout=timeout, env=env)


def tree(d):
    """{relative path: content (bytes) or None for a directory}"""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            p = os.path.join(root, x)
            if not os.path.isfile(p) or os.path.islink(p):
                out[os.path.relpath(p, d)] = b"<not a regular file>"
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def rm(path):
    shutil.rmtree(path, ignore_errors=True)


_CTX = mp.get_context("fork")


def pmap(fn, items, chunk=1):
    """Parallel map over processes, results in order. Exceptions propagate."""
    items = list(items)
    if not items:
        return []
    if NCPU == 1 or len(items) == 1:
        return [fn(x) for x in items]
    with cf.ProcessPoolExecutor(min(NCPU, len(items)), mp_context=_CTX) as ex:
        return list(ex.map(fn, items, chunksize=chunk))


def hk(*x):
    """A digest of any value (dictionaries and sets in canonical order), to count distinct states across processes."""
    def canon(v):
        if isinstance(v, dict):
            return b"{%s}" % b",".join(sorted(canon(k) + b":" + canon(w) for k, w in v.items()))
        if isinstance(v, (set, frozenset)):
            return b"<%s>" % b",".join(sorted(map(canon, v)))
        if isinstance(v, (list, tuple)):
            return b"(%s)" % b",".join(map(canon, v))
        if isinstance(v, bytes):
            return hashlib.blake2b(v, digest_size=12).digest()
        return repr(v).encode()
    return hashlib.blake2b(canon(x), digest_size=8).digest()


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


# ------------------------------------------------------------------ the check protocol
class Check:
    def __init__(self, pid, level="model_checking"):
        self.id, self.level = pid, level
        self.t0 = time.time()
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            tier = "thorough"
        if "--quick" in sys.argv:
            tier = "quick"
        self.tier = tier if tier in ("quick", "thorough") else "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=_scratch_root())
        os.chmod(self.scratch, 0o711)
        os.umask(0)                        # the generator runs as an unprivileged user (contain.c)
        self._pid = os.getpid()
        atexit.register(self._cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.viol = []
        self.known_hit = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0}
        self.distinct = set()
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.known = self._load_known()

    def _cleanup(self):
        if os.getpid() == self._pid:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _load_known(self):
        """Lines 'known: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing."""
        out = {}
        try:
            with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
                for line in f:
                    m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
                    if m and m.group(1) == self.id:
                        out[m.group(2)] = m.group(3).strip()
        except OSError:
            pass
        return out

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def seen(self, hashes):
        """Digests (hk) of states; each counts once."""
        self.distinct.update(hashes)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, key, text, files=None, data=None):
        """key identifies the failing input; files is {name: content} saved for replay."""
        if key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.viol.append((key, text))
        if len(self.viol) > 8:
            return
        safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:80]
        d = os.path.join(VERIF, "replays", self.id, safe)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        for n, c in (files or {}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(c if isinstance(c, bytes) else str(c).encode())
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump({"property": self.id, "key": key, "what": text, "data": data,
                       "tier": self.tier, "seed": self.seed}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (self.id, os.path.relpath(d, VERIF)))
        print("  " + text.replace("\n", "\n  ")[:1500])
        sys.stdout.flush()

    def finish(self):
        for k, v in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.id, v))
        self.cov["states"] += len(self.distinct)
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["none"]
        cov.update(self.notes)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %s, %d violation(s), %.1f s" % (self.id, self.tier, " ".join(
            "%s=%s" % (k, v) for k, v in self.cov.items() if not isinstance(v, (list, dict))), len(self.viol), ev["wall_s"]))
        sys.stdout.flush()
        self._cleanup()
        sys.exit(1 if self.viol else 0)


def main(pid, fn, level="model_checking"):
    """Runs one check; anything unexpected is an error of the check (exit 2), never a verdict."""
    c = Check(pid, level)
    try:
        fn(c)
    except SystemExit:
        raise
    except CheckError as e:
        print("ERROR in check %s: %s" % (pid, e))
        if c.viol:
            c.finish()
        sys.exit(2)
    except BaseException:
        traceback.print_exc()
        print("ERROR in check %s" % pid)
        if c.viol:
            c.finish()
        sys.exit(2)
    c.finish()
