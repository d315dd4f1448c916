"""C19: the full product of the circumstances a generation may depend on (content of fresh memory on heap and stack, clock, time zone, locale,
current directory, spelling of the paths, what stands in the place of the files), every result compared byte by byte with one reference."""
import os, sys, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

CLOCK = r"""
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <stdlib.h>
static long off(void) { const char* e = getenv("FAKE_CLOCK"); return e ? atol(e) : 0; }
time_t time(time_t* t) { time_t v = off(); if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec* t) { (void)c; t->tv_sec = off(); t->tv_nsec = off() % 1000000; return 0; }
int gettimeofday(struct timeval* t, void* z) { (void)z; t->tv_sec = off(); t->tv_usec = off() % 1000000; return 0; }
int rand(void) { return (int)off(); }
"""

BUILD = ("plain", "zero", "pattern")
DIMS = [("build", BUILD), ("heap", ("", "90", "255")), ("stack", (0, 5000)), ("clock", ("86399", "2000000001")), ("tz", ("UTC0", "XYZ-13:30")),
        ("locale", ("C", "de_DE.UTF-8", "C.UTF-8")), ("paths", ("abs", "here", "up", "odd")), ("place", ("fresh", "stale", "previous"))]
# further circumstances, each combined with every build, spelling of the paths and state of the output directory
AROUND = ("plain", "old", "future", "user", "umask", "closed", "file", "name", "link", "readonly", "neighbours", "limits", "argv0", "environment", "options")


def run_check(chk):
    exes = dict(zip(BUILD, map(build_coderdbc, BUILD)))
    base = chk.dir("w")
    locdir = chk.dir("loc")
    for l in ("de_DE", "en_US"):
        run(["localedef", "-i", l, "-f", "UTF-8", os.path.join(locdir, l + ".UTF-8")])
    if not os.path.exists(os.path.join(locdir, "de_DE.UTF-8")):
        chk.assumptions.append("no other locale than C could be built here")
    shim = os.path.join(base, "clock.so")
    with open(os.path.join(base, "clock.c"), "w") as f:
        f.write(CLOCK)
    r = run(["gcc", "-shared", "-fPIC", "-w", "-O1", os.path.join(base, "clock.c"), "-o", shim])
    if r.rc:
        raise CheckError("the clock stand-in does not compile: " + r.err)
    texts = dict(corpus.SMALL, rich=corpus.RICH)
    names = [k for k, _ in DIMS]
    full = list(itertools.product(*[v for _, v in DIMS]))
    # one and two circumstances changed against the first value of each
    few = [c for c in full if sum(x != v[0] for x, (_, v) in zip(c, DIMS)) <= (3 if chk.thorough else 1)] + [full[-1], full[-2], full[len(full) // 2 - 1]]
    work = []
    for n in sorted(texts):
        cs = full if n in (("rich", "factors", "comments", "longnames") if chk.thorough else ("rich",)) else few
        for part in chunks(cs, 60):
            work.append((n, part))
    for c in chunks(few, 60):
        work.append(("rich ", c))                # with node drivers
    around = [c for c in full if all(x == v[0] for x, (k, v) in zip(c, DIMS) if k not in ("build", "paths", "place"))]
    for a in AROUND[1:]:
        for n in sorted(texts):
            work.append((n, [c + (a,) for c in (around if n == "rich" or chk.thorough else around[-1:])]))
        work.append(("rich ", [c + (a,) for c in around[::5]]))
    global _job

    def once(d, text, c, opts, other):
        e = dict(zip(names, c))
        a = c[len(names)] if len(c) > len(names) else "plain"
        out = os.path.join(d, "w", "o ü'$x" if e["paths"] == "odd" else "out")
        rm(os.path.join(d, "w"))
        for x in ("w/sub/deep", "w/d b"):
            os.makedirs(os.path.join(d, x))
        os.makedirs(out)
        dbc = os.path.join(d, "w", {"odd": "d b/in.dbc", "up": "sub/in.dbc"}.get(e["paths"], "in.dbc"))
        with open(dbc, "wb") as f:
            f.write(text)
        cwd, path, b = {"abs": ("/", dbc, out), "here": (os.path.join(d, "w"), "in.dbc", "out"), "up": (os.path.join(d, "w/sub/deep"), "../../sub/./in.dbc", "../../out"),
                     "odd": (os.path.join(d, "w/d b"), "./in.dbc", "..//" + os.path.basename(out) + "/")}[e["paths"]]
        if e["place"] == "stale":
            for k in other:
                os.makedirs(os.path.join(out, os.path.dirname(k)), exist_ok=True)
                with open(os.path.join(out, k), "wb") as f:
                    f.write(b"#error stale\n" * 9000)
        env = {"PATH": os.environ["PATH"], "TZ": e["tz"], "LC_ALL": e["locale"], "LANG": e["locale"], "LOCPATH": locdir, "FAKE_CLOCK": e["clock"], "LD_PRELOAD": shim}
        if e["heap"]:
            env["MALLOC_PERTURB_"] = e["heap"]
        if e["stack"]:
            env["FILLER"] = "\xa5x" * e["stack"]
        if e["locale"] == "C":
            env.pop("LOCPATH")
        if e["place"] == "previous":
            with open(os.path.join(d, "w", "prev.dbc"), "w", encoding="latin-1") as f:
                f.write(corpus.RICH.replace("VERSION \"3.14\"", "VERSION \"9.9\"").replace("(1,0)", "(1,77)"))
            run([exes["plain"], "-dbc", os.path.join(d, "w", "prev.dbc"), "-out", out, "-drvname", "drv", "-rw", *opts])
        cmd = [exes[e["build"]], "-dbc", path, "-out", b, "-drvname", "drv", "-rw", *opts]
        real = dbc
        if a == "old":
            os.utime(dbc, (978307200, 978307200))
            for x in (os.path.dirname(dbc), out):
                os.utime(x, (5, 5))
        elif a == "future":
            os.utime(dbc, (4000000000, 4000000000))
        elif a == "user":
            env.update(HOME=os.path.join(d, "w"), USER="somebody", LOGNAME="somebody", USERNAME="somebody", HOSTNAME="box", HOST="box", SHELL="/bin/zsh", EDITOR="vi", MAIL="x@y", COMPUTERNAME="pc", EMAIL="me@there")
        elif a == "umask":
            cmd = ["sh", "-c", 'umask 0; exec "$0" "$@"', *cmd] if e["place"] != "stale" else ["sh", "-c", 'umask 27; exec "$0" "$@"', *cmd]
        elif a == "closed":
            cmd = ["sh", "-c", 'exec "$0" "$@" %s' % {"fresh": "<&- >&- 2>&-", "stale": "<&-", "previous": ">&- 2>/dev/full"}[e["place"]], *cmd]
        elif a == "file":
            cmd = ["sh", "-c", 'exec "$0" "$@" > "%s/log" 2>&1 < "%s"' % (d, dbc), *cmd]
        elif a == "name":                            # another copy of the program
            shutil.copy2(cmd[0], os.path.join(d, "w", "d b", "gen v2.exe"))
            cmd[0] = os.path.join(d, "w", "d b", "gen v2.exe")
        elif a == "link":
            real = os.path.join(d, "w", "real file")
            os.rename(dbc, real)
            os.symlink(real, dbc)
        elif a == "readonly":
            os.chmod(dbc, 0o444)
            os.chmod(os.path.dirname(dbc), 0o555)
        elif a == "neighbours":
            for x in ("in.cfg", "in.ini", "in.xml", "in.json", "coderdbc.cfg", "coderdbc.ini", ".coderdbc", "in.dbc.bak", "other.dbc", ".git/config", "drv.h", "drv-config.h", "version.h"):
                for y in {os.path.dirname(dbc), cwd if cwd != "/" else os.path.dirname(dbc)}:
                    os.makedirs(os.path.join(y, os.path.dirname(x)), exist_ok=True)
                    with open(os.path.join(y, x), "w") as f:
                        f.write("VERSION 8.8\nversion = 8.8\n")
        elif a == "limits":
            cmd = ["sh", "-c", 'ulimit -s 3000; ulimit -n 20; ulimit -c 0; exec nice -n 5 "$0" "$@"', *cmd]
        elif a == "argv0":
            cmd = ["bash", "-c", 'exec -a "-drvname" "$0" "$@"', *cmd]
        elif a == "environment":
            env.update({x: "1" for x in ("DEBUG", "VERBOSE", "CI", "NO_COLOR", "CODERDBC", "DBC", "DRV", "SOURCE_DATE_EPOCH", "TERM", "COLUMNS", "POSIXLY_CORRECT", "GENDATE", "TEST", "OUT")}, TMPDIR=d)
        elif a == "options":                         # the same options in another order, some of them twice
            cmd = [cmd[0], *opts, "-rw", "-drvname", "drv", "-out", b, "-rw", "-dbc", path, *opts]
        r = run(cmd, cwd=cwd, env=env)
        if a == "readonly":
            os.chmod(os.path.dirname(dbc), 0o777)
        with open(real, "rb") as f:
            if f.read() != text:
                r.rc = "a changed DBC file"
        return r, {k: v for k, v in tree(out).items() if v is not None}

    def _job(ij):
        i, (n, part) = ij
        d = os.path.join(base, "j%d" % i)
        text = texts[n.strip()].encode("latin-1")
        opts = ["-nodeutils"] if n.endswith(" ") else []
        r0, ref = once(d, text, full[0], opts, {})
        out, nf = [], 0
        if r0.rc or not ref:
            out.append(("fails", "the generator ends with %s: %s" % (r0.rc, r0.err[-200:]), {"in.dbc": text}))
        for c in part if ref else ():
            r, got = once(d, text, c, opts, ref)
            nf += len(ref)
            bad = None
            if r.rc != r0.rc:
                bad = "the generator ends with %s" % r.rc
            for k in sorted(ref):
                if got.get(k) != ref[k] and not bad:
                    x, y = (got.get(k) or b"").decode("latin-1").split("\n"), ref[k].decode("latin-1").split("\n")
                    j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                    bad = "%s differs in line %d: %r instead of %r" % (k, j + 1, x[j:j + 1], y[j:j + 1])
            if not bad and set(got) - set(ref) and dict(zip(names, c))["place"] == "fresh":
                bad = "additional files %s" % sorted(set(got) - set(ref))[:3]
            if bad:
                out.append(("%s:%s" % (n.strip(), "_".join(map(str, c))), "DBC file '%s', %s: %s" % (n.strip(), ", ".join("%s %s" % x for x in zip(names + ["around"], c)), bad), {"in.dbc": text}))
                if len(out) > 2:
                    break
        rm(d)
        return len(part), nf, out
    bag = Bag(chk)
    chk.add(states=len(set(full)) + len(around) * (len(AROUND) - 1))
    for n, nf, out in pmap(_jobcall, list(enumerate(work))):
        chk.add(transitions=nf, traces_validated_against_impl=n)
        for x in out:
            bag.put(*x)
    chk.notes.update(circumstances={k: list(v) for k, v in DIMS + [('around', AROUND)]}, dbc_files=len(texts), exhaustive=True)
    chk.sample(" ".join(map(str, full[777])))
    chk.assumptions.append("the DBC file keeps its base name, which the generated files mention")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C19", run_check)
