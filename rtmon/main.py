"""Driver: rtmon/main.py PROPERTY [--tier quick|thorough] [--seed N] [--case K] [--cases N]

Runs the workload of one property against the freshly built tool in several worker processes, with the
property's monitor deciding each case; writes evidence/<id>.json; keeps the failing case under replay/.
Exit 0: held on everything observed; 1: VIOLATION; 3: the monitor could not decide.
"""
import argparse, hashlib, importlib, json, multiprocessing, os, shutil, sys, time, traceback
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import util
from util import Violation, Inconclusive, Rng

MODULES = ["c_trace", "c_parse", "c_report", "c_system", "c_more"]


class Ctx:
    """what one worker observed"""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.counts = Counter()
        self.digests = set()
        self.samples = []
        self.evaluations = 0
        self.nontrivial_now = False

    def count(self, k, n=1):
        if n:
            self.counts[k] += n

    def saw(self, digest, nontrivial=True):
        if nontrivial:
            self.digests.add(digest)

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text[:1500])


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        reg.update(mod.CHECKS)
    return reg


def one_case(check, prop, k, seed, tier, ctx, root):
    r = Rng("%s/%s/%d" % (prop, seed, k))
    d = os.path.join(root, "c%d" % k)
    os.makedirs(d)
    ctx.evaluations += 1
    check["case"](r, d, ctx, k)


def worker(args):
    prop, seed, tier, w, n, total, root, deadline = args
    check = registry()[prop]
    ctx = Ctx(tier, seed)
    res = {"violation": None, "inconclusive": None, "error": None, "capped": False}
    my = os.path.join(root, "w%d" % w)
    os.makedirs(my)
    stop = os.path.join(root, "stop")
    for k in range(w, total, n):
        if time.time() > deadline:
            res["capped"] = True
            break
        if k % 8 == w % 8 and os.path.exists(stop):
            break
        runs = util.RUNS        # an exception before the tool was started is the generator's
        try:
            one_case(check, prop, k, seed, tier, ctx, my)
        except Violation as v:
            res["violation"] = (k, str(v), os.path.join(my, "c%d" % k))
            open(stop, "w").close()
            break
        except Inconclusive as e:
            res["inconclusive"] = (k, str(e))
            break
        except Exception as e:
            if util.RUNS == runs or isinstance(e, MemoryError) or isinstance(e, OSError) and not isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError, FileExistsError)):
                res["error"] = (k, traceback.format_exc())
                open(stop, "w").close()
                break
            # what the tool wrote does not have the shape the monitor knows; certain if it happens again
            tb = traceback.format_exc()
            util.wipe(os.path.join(my, "c%d" % k))
            try:
                one_case(check, prop, k, seed, tier, ctx, my)
                res["inconclusive"] = (k, tb)
            except MemoryError:
                res["error"] = (k, tb)
            except Exception:
                res["violation"] = (k, "the output does not have its known structure:\n" + tb, os.path.join(my, "c%d" % k))
            open(stop, "w").close()
            break
        util.wipe(os.path.join(my, "c%d" % k))
    res.update(evaluations=ctx.evaluations, counts=ctx.counts, digests=ctx.digests, samples=ctx.samples)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    reg = registry()
    check = reg[a.prop]
    t0 = time.time()
    root = util.scratch_root()
    try:
        if a.case is not None:
            ctx = Ctx(a.tier, a.seed)
            try:
                one_case(check, a.prop, a.case, a.seed, a.tier, ctx, root)
            except Violation as v:
                print(v)
                if a.keep:
                    print("kept", root)
                return 1
            print("held", dict(ctx.counts))
            if a.keep:
                print("kept", root)
            return 0
        n = min(8, os.cpu_count() or 1)
        total = a.cases or check[a.tier]
        budget = a.budget or (240 if a.tier == "quick" else 3000)
        deadline = t0 + budget
        with multiprocessing.get_context("fork").Pool(n) as pool:
            results = pool.map(worker, [(a.prop, a.seed, a.tier, w, n, total, root, deadline) for w in range(n)], chunksize=1)
        counts, digests, samples, evals = Counter(), set(), [], 0
        for x in results:
            counts.update(x["counts"])
            digests |= x["digests"]
            samples += x["samples"][:1]
            evals += x["evaluations"]
        violations = [x["violation"] for x in results if x["violation"]]
        violations.sort(key=lambda v: v[0])
        if check.get("extra") and a.tier == "thorough" and not violations and not a.cases:
            found = check["extra"](root, counts, a.seed)
            if found:
                violations.append((total,) + found)
        errors = [x["error"] for x in results if x["error"]]
        inconclusive = [x["inconclusive"] for x in results if x["inconclusive"]]
        ev = {
            "property": a.prop, "tier": a.tier, "seed": a.seed, "level": check.get("level", "exploration"),
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(digests), "rule": check["rule"],
                "samples": samples[:4] or ["(no sample)"], "observed": dict(sorted(counts.items())),
                "stopped_by_time": any(x["capped"] for x in results),
            },
            "assumptions": check.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": len(violations),
        }
        os.makedirs(os.path.join(util.OUT, "evidence"), exist_ok=True)
        with open(os.path.join(util.OUT, "evidence", a.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1, ensure_ascii=False, default=str)
            h.write("\n")
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (a.prop, a.tier, a.seed, evals, len(digests), time.time() - t0))
        print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(counts.items())))
        if violations:
            k, msg, d = violations[0]
            dst = os.path.join(util.OUT, "replay", "%s-%s-s%d-c%d" % (a.prop, a.tier, a.seed, k))
            util.wipe(dst)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copytree(d, dst, symlinks=True, ignore_dangling_symlinks=True)
            with open(os.path.join(dst, "VIOLATION.txt"), "w", encoding="utf-8", errors="replace") as h:
                h.write(msg + "\n\nreplay: python3 /verif/rtmon/main.py %s --tier %s --seed %d --case %d\n" % (a.prop, a.tier, a.seed, k))
            print(msg[:3000])
            print("VIOLATION property=%s replay=%s" % (a.prop, dst))
            return 1
        if errors:
            print("monitor error in case %d:\n%s" % errors[0])
            return 3
        if inconclusive:
            print("inconclusive in case %d: %s" % inconclusive[0])
            return 3
        need = check.get("need", {})
        missing = [k for k, v in need.items() if counts.get(k, 0) < v]
        if missing or not digests:
            print("inconclusive: workload never produced %s" % (missing or "a non-trivial case"))
            return 3
        return 0
    finally:
        if not (a.keep and a.case is not None):
            util.wipe(root)


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.exit(main())
