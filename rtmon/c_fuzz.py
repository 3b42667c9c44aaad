"""Coverage-guided workload of C09 (thorough tier): libFuzzer on the whole tool in one process; what it finds is confirmed with the command line tool."""
import glob, os, re, shutil, subprocess, sys
import util
from util import run_cli

PARSERS = ["Markdown", "MonoRequirement", "Rust", "Json"]
JOBS = [("Parse", "Json"), ("Parse", "Markdown"), ("Parse", "Tags"), ("Trace", "Json"), ("Trace", "Markdown"), ("Trace", "GnuError")]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build(target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "+nightly", "fuzz", "build", "--fuzz-dir", os.path.join(HERE, "fuzz"), "-s", "none", "inputs"], env=env, capture_output=True, cwd=HERE)
    found = glob.glob(target + "/*/release/inputs")
    return (found[0] if found and p.returncode == 0 else None), p.stderr.decode("utf-8", "replace")[-500:]


def unpack(data, d):
    """the project that the fuzz target makes of its input"""
    os.makedirs(d)
    toml, names = "", []
    for name, chunk in zip("abc", data.split(b"\x1e")):
        parser = PARSERS[chunk[0] & 3] if chunk else "Markdown"
        with open(os.path.join(d, name), "wb") as h:
            h.write(chunk[1:])
        toml += "[[artefacts]]\nid = \"%s\"\nparser = \"%s\"\npaths = [\"%s\"]\n" % (name, parser, name)
        names.append(name)
    if len(names) < 2:
        toml = "relations = []\n" + toml
    for u, l in zip(names, names[1:]):
        toml += "[[relations]]\nupper = \"%s\"\nlower = [\"%s\"]\n" % (u, l)
    for i, (q, f) in enumerate(JOBS):
        toml += "[jobs.j%d]\nquery = \"%s\"\nformat = \"%s\"\nfile = \"out/%d\"\n" % (i, q, f, i)
    with open(os.path.join(d, "requirements.toml"), "w") as h:
        h.write(toml)
    return ["j%d" % i for i in range(len(JOBS))]


def fuzz(root, counts, seconds, seed):
    """(message, directory) of a confirmed violation or None"""
    exe, err = build(os.path.join(HERE, "target", "fuzz"))
    if exe is None:
        print("fuzz target was not built, left out: " + err)
        counts["fuzz_not_built"] += 1
        return None
    w = os.path.join(root, "fuzz")
    os.makedirs(w + "/corpus")
    subprocess.run([sys.executable, "-B", os.path.join(HERE, "fuzz", "seeds.py"), w + "/corpus", "800"], check=True)
    with open(w + "/log", "wb") as log:
        subprocess.run([exe, "corpus", "-fork=7", "-max_total_time=%d" % seconds, "-max_len=8192", "-timeout=60", "-rss_limit_mb=3500", "-seed=%d" % seed, "-ignore_crashes=1",
                        "-ignore_ooms=1", "-ignore_timeouts=1", "-dict=" + os.path.join(HERE, "fuzz", "dict"), "-artifact_prefix=%s/found-" % w],
                       cwd=w, env=dict(os.environ, RTMON_FUZZ_DIR=w + "/w", RUST_BACKTRACE="0"), stdout=log, stderr=log, timeout=seconds + 600)
    text = open(w + "/log", "rb").read().decode("utf-8", "replace")
    m = re.findall(r"#(\d+): cov: (\d+) ft: (\d+) corp: (\d+)", text)
    if m:
        counts["fuzz_runs"] += int(m[-1][0])
        counts["fuzz_edges"] += int(m[-1][1])
        counts["fuzz_features"] += int(m[-1][2])
    for n, f in enumerate(sorted(glob.glob(w + "/found-*"))):
        counts["fuzz_candidates"] += 1
        d = os.path.join(w, "p%d" % n)
        jobs = unpack(open(f, "rb").read(), d)
        run = run_cli(jobs, d)
        if b"overflowed its stack" in run.err and sum(open(f, "rb").read().count(c) for c in (b"(", b"[", b"{", b"<", b"&", b"*", b"!", b"-", b"|", b"=", b"if", b"else")) > 120:
            counts["fuzz_deep_nesting"] += 1        # C09 is about moderate depth
            continue
        if run.crashed() or run.rc not in (0, 1):
            shutil.copy(f, d + "/fuzz-input")
            return "found by the fuzzer, confirmed: " + run.describe(), d
    return None
