"""Shared pieces of the monitors: verdict exceptions, the monitored run, text helpers."""
import os, random, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get("RTMON_OUT", VERIF)
BIN = os.environ.get("RTMON_BIN", os.path.join(VERIF, "target", "debug", "reqtrace"))
SHIM = os.environ.get("RTMON_SHIM", os.path.join(VERIF, "target", "rtshim.so"))
LAUNCH = os.environ.get("RTMON_LAUNCH", os.path.join(VERIF, "target", "rtlaunch"))
CPU_LIMIT = 60          # seconds of CPU; a normal run takes about 0.01
FSIZE_LIMIT = 1 << 30   # bytes per report; a normal report has less than a megabyte
WALL_LIMIT = 90         # seconds until the watchdog looks whether the run is blocked for ever
WALL_END = 240          # seconds until the watchdog gives up; never a verdict


class Violation(Exception):
    """The property is broken: carries what was observed."""


class Inconclusive(Exception):
    """The monitor could not observe what it needs; never a verdict."""


class Run:
    __slots__ = ("rc", "out", "err", "args", "cwd", "env")

    def __init__(self, rc, out, err, args, cwd, env):
        self.rc, self.out, self.err, self.args, self.cwd, self.env = rc, out, err, args, cwd, env

    def crashed(self):
        return self.rc < 0 or self.rc == 101 or b"panicked at" in self.err

    def describe(self):
        return "cd %s && %s reqtrace %s -> status %s\nstderr: %s" % (
            self.cwd, " ".join("%s=%s" % kv for kv in sorted((self.env or {}).items())),
            " ".join(self.args), self.rc, self.err[-1500:].decode("utf-8", "replace"))


BASE_ENV = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": "/nonexistent"}


def proc_state(pid):
    """state and CPU time of a process we started"""
    try:
        with open("/proc/%d/stat" % pid) as h:
            f = h.read().rsplit(")", 1)[1].split()
        return f[0], f[11], f[12]
    except OSError:
        return None


RUNS = 0        # how often the tool was started


SLOW = float(os.environ.get("RTMON_SLOW", "0"))


def run_cli(args, cwd, env=None, stdout=None, binary=None, log="off", fsize=None, close_stdout=False, cpu=CPU_LIMIT):
    """Run the real tool. stdout: None = capture, else a file object."""
    global RUNS
    RUNS += 1
    env = env or {}
    tool = [binary or BIN] + (["-l", log] if log else []) + list(args)
    argv = [LAUNCH, str(cpu), str(-FSIZE_LIMIT if fsize is None else fsize), "1" if close_stdout else "0", str(len(env))]
    argv += ["%s=%s" % kv for kv in env.items()] + tool
    t0 = time.monotonic()
    p = subprocess.Popen(argv, cwd=cwd, env=BASE_ENV, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=WALL_LIMIT)
    except subprocess.TimeoutExpired:
        seen = []
        while len(seen) < 10:
            time.sleep(1)
            seen.append(proc_state(p.pid))
        if len(set(seen)) == 1 and seen[0] and seen[0][0] == "S":
            p.kill()
            p.communicate()
            raise Violation("the run is blocked for ever (%d s without using CPU): %r in %s" % (WALL_LIMIT, argv, cwd))
        try:
            out, err = p.communicate(timeout=WALL_END)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Inconclusive("watchdog: no end after %d s: %r in %s" % (WALL_LIMIT + WALL_END, argv, cwd))
    if SLOW and time.monotonic() - t0 > SLOW:
        sys.stderr.write("slow: %.1f s %r in %s\n" % (time.monotonic() - t0, argv, cwd))
    if p.returncode in (120, 121):
        raise Inconclusive("could not start the tool: %r" % err)
    return Run(p.returncode, out if stdout is None else b"", err, tool[1:], cwd, env)


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return tempfile.mkdtemp(prefix="rtmon.", dir=base)


def wipe(path):
    shutil.rmtree(path, ignore_errors=True)


def norm_file(f, cwd):
    return os.path.normpath(os.path.join(cwd, f))


def norm_loc(loc, cwd):
    """hashable, comparable form of a location"""
    lif = loc.get("location_in_file")
    if lif is None:
        pos = None
    else:
        (k, v), = lif.items()
        pos = (k, tuple(v) if isinstance(v, list) else v)
    return (norm_file(loc["file"], cwd), pos)


def loc_text(loc):
    """text form file[:line[:column]] of a location"""
    lif = loc.get("location_in_file")
    if lif is None:
        return loc["file"]
    (k, v), = lif.items()
    if k == "LineAndColumn":
        return "%s:%d:%d" % (loc["file"], v[0], v[1])
    return "%s:%s" % (loc["file"], v)


def norm_text(s):
    """text up to line ends, trailing white space of lines, and surrounding blank lines"""
    lines = [l.rstrip() for l in s.replace("\r\n", "\n").split("\n")]
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return "\n".join(lines)


def diff_sets(what, expected, actual):
    """raise Violation if two sets differ"""
    expected, actual = set(expected), set(actual)
    if expected != actual:
        missing = sorted(expected - actual, key=repr)[:8]
        extra = sorted(actual - expected, key=repr)[:8]
        raise Violation("%s: missing %r, unexpected %r" % (what, missing, extra))


def diff_eq(what, expected, actual):
    if expected != actual:
        raise Violation("%s: expected %r, observed %r" % (what, expected, actual))


class Rng(random.Random):
    def p(self, prob):
        return self.random() < prob

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def some(self, seq, prob):
        return [x for x in seq if self.random() < prob]

    def shuffled(self, seq):
        s = list(seq)
        self.shuffle(s)
        return s

    def weighted(self, pairs):
        t = self.random() * sum(w for _, w in pairs)
        for v, w in pairs:
            t -= w
            if t < 0:
                return v
        return pairs[-1][0]
