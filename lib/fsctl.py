"""Drives fsched.c: controlled executions of one or several generators on a scratch directory."""
import os, stat, subprocess
from common import *


class Exec:
    __slots__ = ("ops", "ends", "lost", "raw")

    def __init__(self, out):
        self.ops, self.ends, self.lost, self.raw = [], {}, None, out
        for line in out.splitlines():
            f = line.split(" ")
            if f[0] == "OP":
                self.ops.append([int(f[2]), f[3], f[4] == "1", f[5], "" if f[6] == "-" else f[6], None])
            elif f[0] == "RES":
                self.ops[int(f[1])][5] = int(f[2])
            elif f[0] == "END":
                self.ends[int(f[1])] = int(f[2])
            elif f[0] == "LOST":
                self.lost = line[5:]


class FsCtl:
    """Executions below one directory; the tool and the generator are copied next to it so that an unprivileged user can run them."""

    def __init__(self, d, exe):
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o777)
        self.d, self.tool, self.exe = d, os.path.join(d, "fsched"), os.path.join(d, "generator")
        if not os.path.exists(self.tool):
            r = subprocess.run(["gcc", "-w", "-O1", os.path.join(LIB, "fsched.c"), "-o", self.tool], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("fsched.c does not compile: " + r.stderr)
            shutil.copy2(exe, self.exe)
            os.chmod(self.tool, 0o755), os.chmod(self.exe, 0o755)

    def run(self, root, cmds, sched=(), faults=(), reads=False):
        a = [self.tool, root, ",".join(map(str, sched)) or "-", ",".join(faults) or "-"]
        for c in cmds:
            a += ["--", self.exe, *c]
        r = run(a, timeout=70, cwd=self.d, env=dict(os.environ, FSCHED_READS="1") if reads else None)
        x = Exec(r.out)
        if x.lost and x.lost != "timeout":
            raise CheckError("controlled execution lost: " + x.lost)
        if not x.lost and len(x.ends) != len(cmds):
            raise CheckError("controlled execution failed: %r" % r)
        return x


def ended_badly(x, i=0):
    if x.lost:
        return "does not end"
    s = x.ends[i]
    return "is killed by signal %d" % (s - 1000) if s >= 1000 else ("ends with status %d" % s if s >= 128 else None)


def diff_trees(want, got, skip=()):
    """First difference between two trees outside the paths to skip."""
    for k in sorted(set(want) | set(got)):
        if k in skip:
            continue
        if k not in got:
            return "%s is missing" % k
        if k not in want:
            return "%s has appeared" % k
        if want[k] != got[k]:
            if want[k] is None or got[k] is None:
                return "%s has changed its kind" % k
            n = next((i for i, (a, b) in enumerate(zip(want[k], got[k])) if a != b), min(len(want[k]), len(got[k])))
            return "%s differs from byte %d on (%d instead of %d bytes): %r instead of %r" % (k, n, len(got[k]), len(want[k]), got[k][n:n + 40], want[k][n:n + 40])
    return None
