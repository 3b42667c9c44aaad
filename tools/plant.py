"""plant.py BUGS.py [id...]: makes /verif/seeded/<id> from descriptions, after confirming them in a scratch copy of /repo.
BUGS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant/repo"
ENV = dict(os.environ, CARGO_TARGET_DIR=WT + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests():
    sh("rm -rf tests/*/out tests/data/*/out target/debug/.fingerprint/reqtrace-*", cwd=WT)
    p = sh("cargo test --workspace --no-fail-fast --offline 2>&1", cwd=WT, env=ENV)
    ok = {l.split()[1] for l in p.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
    return ok, p


def demo(dst):
    return sh("bash %s/demo.sh" % dst, cwd=WT)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.rmtree(WT, ignore_errors=True)
    sh("cp -a /repo %s" % WT)
    base, p = tests()
    print("baseline", len(base))
    for b in bugs:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- .", cwd=WT)
        err = None
        for f, old, new in b["edits"]:
            s = open(os.path.join(WT, f)).read()
            if s.count(old) != 1:
                err = "text occurs %d times in %s: %r" % (s.count(old), f, old[:60])
                break
            open(os.path.join(WT, f), "w").write(s.replace(old, new))
        if err:
            print(b["id"], "NOT PLANTED:", err)
            continue
        diff = sh("git diff", cwd=WT).stdout
        # the changed lines must be the original repository's
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        f0 = {f: set(sh("git show 184cc7d:%s" % f, cwd=WT).stdout.splitlines()) for f, _, _ in b["edits"]}
        mine = [g for g in gone if g.strip() and not any(g in x for x in f0.values())]
        if mine:
            print(b["id"], "warning: changes lines of my own:", mine[:3])
        ok, p = tests()
        if not base <= ok:
            print(b["id"], "NOT PLANTED: tests fail", sorted(base - ok)[:5], p.stdout[-1500:] if not ok else "")
            continue
        dst = "/tmp/plant/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(dst + "/patch.diff", "w").write(diff)
        open(dst + "/demo.py", "w").write(open(V + "/tools/demolib.py").read() + "\n\n" + b["demo"].strip() + "\n")
        open(dst + "/demo.sh", "w").write("#!/bin/bash\n# run in /repo after the build\nexec python3 -B \"$(dirname \"$0\")/demo.py\" \"$PWD/target/debug/reqtrace\"\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        bad = demo(dst)
        shutil.copy(WT + "/target/debug/reqtrace", "/tmp/plant/%s.bin" % b["id"])
        sh("git checkout -q -- .", cwd=WT)
        sh("rm -rf target/debug/.fingerprint/reqtrace-*", cwd=WT)
        sh("cargo build --offline", cwd=WT, env=ENV)
        good = demo(dst)
        if bad.returncode == 0 or good.returncode != 0:
            print(b["id"], "NOT PLANTED: demo", bad.returncode, bad.stdout[-800:], bad.stderr[-800:], "| clean", good.returncode, good.stdout[-800:], good.stderr[-800:])
            continue
        shutil.rmtree(V + "/seeded/" + b["id"], ignore_errors=True)
        os.makedirs(V + "/seeded", exist_ok=True)
        shutil.copytree(dst, V + "/seeded/" + b["id"])
        print(b["id"], "planted;", bad.stdout.strip()[:200])


main()
