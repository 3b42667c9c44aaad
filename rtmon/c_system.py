"""Monitors of whole runs: configuration, exit status, robustness, determinism, faults, files (C07-C09, C19-C22)."""
import copy, errno, json, os, re, stat
from util import *
from world import *
import gen
from gen import *
from c_trace import base_args, ASSUME
from c_parse import add_broken, md_with_errors, deep_json_req, break_json
from c_report import rel_text
from c_fuzz import fuzz

ALL_JOBS = [("Trace", "Json"), ("Trace", "Markdown"), ("Trace", "GnuError"), ("Parse", "Json"), ("Parse", "Markdown"), ("Parse", "Tags")]
UNSUPPORTED = [("Trace", '"Tags"'), ("Parse", '"GnuError"'), ("Trace", '{ TemplateString = "x" }'), ("Parse", '{ TemplateFile = "x" }')]


def snapshot(top):
    """path -> content of everything below a directory"""
    out = {}
    for dp, dn, fn in os.walk(top):
        for n in dn:
            p = os.path.join(dp, n)
            out[p] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
        for n in fn:
            p = os.path.join(dp, n)
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            else:
                st = os.lstat(p)
                with open(p, "rb") as h:
                    out[p] = ("file", stat.S_IMODE(st.st_mode), h.read())
    return out


def snap_diff(a, b):
    res = []
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            res.append("%s: %s -> %s" % (p, describe(a.get(p)), describe(b.get(p))))
    return res


def describe(x):
    if x is None:
        return "absent"
    return "%s of %d bytes" % (x[0], len(x[2])) if x[0] == "file" else str(x)


def small(r, **kw):
    o = dict(n_arts=[(1, 1), (2, 4), (3, 3)], n_reqs=[(0, 0.5), (1, 2), (3, 3)])
    o.update(kw)
    return make_world(r, Opts(**o))


# ---------------------------------------------------------------- C07

def toml_breaks(r, cfg, w):
    """a configuration that is not acceptable, made from a good one"""
    k = r.randrange(12)
    if k == 0:
        return cfg + r.pick(["\n[[artefacts\n", "\nx = \n", "\n= 3\n", "\n[jobs\n", "\n\"unterminated\n"]), "syntax"
    if k == 1:
        return "artefacts = 3\n" + re.sub(r"(?m)^artefacts = .*\n", "", re.sub(r"\n\[\[artefacts\]\](\n.+)+", "", cfg)), "type"
    if k == 2 and w.arts:
        return re.sub(r'parser = "[^"]*"', 'parser = "%s"' % r.pick(["markdown", "Rust ", "MD", "", "Xml"]), cfg, count=1), "parser"
    if k == 3 and w.arts:
        return re.sub(r'(?m)^(id|paths|parser) = .*\n', "", cfg, count=1), "field_missing"
    if k == 4:
        return re.sub(r'query = "[^"]*"', 'query = "%s"' % r.pick(["trace", "Tracing", ""]), cfg, count=1), "query"
    if k == 5:
        return re.sub(r'format = "[^"]*"', 'format = "%s"' % r.pick(["json", "Html", ""]), cfg, count=1), "format"
    if k == 6:
        return re.sub(r'(?m)^(query|format|file) = .*\n', "", cfg, count=1), "job_field_missing"
    if k == 7 and w.rels:
        return re.sub(r'(?m)^(upper|lower) = .*\n', "", cfg, count=1), "relation_field_missing"
    if k == 8 and w.rels:
        return re.sub(r'(?m)^lower = .*$', 'lower = "%s"' % (w.rels[0][1] or ["A"])[0].replace('"', ""), cfg, count=1), "lower_not_a_list"
    if k == 9:
        return "version = %s\n" % r.pick(['"0"', "-1", "0.5", "99999999999"]) + cfg, "version_type"
    if k == 10:
        return cfg.encode() + b"\n# \xff\xfe\n", "encoding"
    return cfg + "\n" + "[jobs.zz]\nquery = \"Trace\"\nformat = \"Json\"\nfile = %s\n" % r.pick(["3", "[]", "true"]), "file_type"


def id_like(r, i, taken):
    for _ in range(50):
        n = r.pick([i.upper(), i.lower(), i + "s", i[:-1], i + " ", " " + i, i.swapcase(), "unknown", ""])
        if n not in taken:
            return n
    return i + "_not_there"


def c07(r, d, ctx, k):
    w = small(r, n_arts=[(1, 1), (2, 4), (4, 3)])
    ids = {a.id for a in w.arts}
    jobs = [Job("j%d" % n, q, f, r.pick(["out/", "", "deep/er/"]) + "r%d" % n) for n, (q, f) in enumerate(r.shuffled(ALL_JOBS)[:r.randint(1, 3)])]
    if r.p(0.3):
        jobs[-1].file = "-"
    names = [j.name for j in jobs]
    mistake = r.pick(["missing", "directory", "toml", "toml", "version", "upper", "lower", "twice", "job", "default", "no_default", "format", "paths",
                      "unused", "unused", "none"])
    root, cwd, args = base_args(r, d)
    cfgfile = os.path.join(root, "requirements.toml")
    call = list(names)
    kw = {}
    if r.p(0.3):
        kw["default"], call = names, []
    allowed = []
    if mistake == "version":
        kw["version"] = r.pick([1, 2, 10, 127, 128, 255, 256, 1000, 32768, 65535, 65536, 1 << 24, 2147483647, 2147483648, 4294967295])
    elif mistake == "upper":
        bad = id_like(r, r.pick(w.arts).id, ids)
        w.rels.insert(r.randint(0, len(w.rels)), (bad, r.weighted([([r.pick(w.arts).id], 6), ([], 1), ([bad], 1), (sorted(ids), 1)])))
        if r.p(0.05):
            w.arts = []
    elif mistake == "lower":
        bad = id_like(r, r.pick(w.arts).id, ids)
        ls = [bad] + [a.id for a in r.some(w.arts, 0.3)]
        r.shuffle(ls)
        w.rels.insert(r.randint(0, len(w.rels)), (r.pick(w.arts).id, ls))
        if r.p(0.05):
            w.rels += [(r.pick(w.arts).id, []) for _ in range(r.pick([3, 16, 40, edge(r, 257)]))]
            r.shuffle(w.rels)
    elif mistake == "twice":
        a = r.pick(w.arts)
        b = Art(a.id, r.pick(["Markdown", "Json", "Rust"]))
        b.paths = list(r.pick(w.arts).paths)
        w.arts.insert(r.randint(0, len(w.arts)), b)
    elif mistake == "job":
        call = list(names)
        kw.pop("default", None)
        call.insert(r.randint(0, len(call)), id_like(r, r.pick(names), set(names)) or "nothing")
        if r.p(0.3):
            kw["default"] = names
    elif mistake == "default":
        ds = list(names)
        ds.insert(r.randint(0, len(ds)), id_like(r, r.pick(names), set(names)))
        kw["default"], call = ds, []
    elif mistake == "no_default":
        kw["default"], call = r.pick([None, []]), []
    elif mistake == "format":
        q, f = r.pick(UNSUPPORTED)
        bad = Job("bad", q, f.strip('"'), r.pick(["-", "out/bad", "bad"]))
        jobs.append(bad)
        pos = r.randint(0, len(names))
        call = names[:pos] + ["bad"] + names[pos:]
        kw.pop("default", None)
        allowed = None
    elif mistake == "paths":
        a = r.pick(w.arts)
        a.old = a.paths
        a.paths = [] if a.parser == "Rust" or r.p(0.5) else a.paths + [r.pick(w.arts).paths[0]]
        a.found = []
    elif mistake in ("unused", "none"):
        jobs = [TRACE_JSON]
        if kw.get("default"):
            kw["default"] = ["trace_json"]
        else:
            call = ["trace_json"]
        if mistake == "none" and r.p(0.3):
            kw["version"] = 0
    if mistake == "paths":
        jobs.append(TRACE_JSON)
        call = call + ["trace_json"] if call else call
        if kw.get("default"):
            kw["default"] = names + ["trace_json"]
    w.write(root, jobs, **kw)
    ctx.count("mistake_" + mistake)
    if mistake == "missing":
        os.unlink(cfgfile)
    elif mistake == "directory":
        os.unlink(cfgfile)
        os.mkdir(cfgfile)
    elif mistake == "toml":
        cfg = open(cfgfile, encoding="utf-8").read()
        new, what = toml_breaks(r, cfg, w)
        new = new if isinstance(new, bytes) else new.encode()
        if new == cfg.encode():
            return
        with open(cfgfile, "wb") as h:
            h.write(new)
        ctx.count("toml_" + what)
    before = snapshot(d)
    run = run_cli(args + call, cwd, log=r.pick(["off", "off", "error", "info"]))
    after = snapshot(d)
    diff = snap_diff(before, after)
    if run.crashed():
        raise Violation("crash: " + run.describe())
    if mistake in ("unused", "none"):
        if run.rc not in (0, 1):
            raise Violation("correct configuration rejected: " + run.describe())
        obs = observe_trace(os.path.join(root, "out/trace.json"), run, cwd)
        exp = Expect(w, root, cwd)
        got = Counter((e["upper"], tuple(e["lower"])) for e in obs.kinds.get("UnusedRelation", []))
        diff_eq("unused relations", Counter(exp.unused), got)
        ctx.count("unused_relations", len(exp.unused))
        ctx.count("used_relations", len(w.rels) - len(exp.unused))
    elif mistake == "paths":
        if run.rc != 1:
            raise Violation("wrong number of paths: status %d, expected 1: %s" % (run.rc, run.describe()))
        obs = observe_trace(os.path.join(root, "out/trace.json"), run, cwd)
        if not obs.t["artefacts"][a.id]["errors"]:
            raise Violation("artefact %s with paths %r has no error" % (a.id, a.paths))
        if obs.t["artefacts"][a.id]["requirements"]:
            raise Violation("artefact %s with paths %r was imported" % (a.id, a.paths))
    else:
        if run.rc != 2:
            raise Violation("mistake %r in the configuration: status %d, expected 2: %s" % (mistake, run.rc, run.describe()))
        if not run.err.strip():
            raise Violation("mistake %r in the configuration: no message" % mistake)
        if allowed is not None:
            if diff:
                raise Violation("mistake %r in the configuration: files written all the same: %r" % (mistake, diff))
            if run.out:
                raise Violation("mistake %r in the configuration: report on standard output %r" % (mistake, run.out[:200]))
    ctx.saw(w.digest() + mistake)
    if k < 16:
        ctx.sample("%s: %s -> %d %s" % (mistake, call, run.rc, run.err[:200].decode("utf-8", "replace")))


# ---------------------------------------------------------------- C08

def causes(exp):
    c = []
    for n in ("input_error", "dup_across", "unused", "wrong_cover", "wrong_depend", "no_title", "bad_covers", "bad_depends", "any_uncovered", "any_derived"):
        if getattr(exp, n):
            c.append(n)
    return c


def one_input_error(r):
    """an artefact with exactly one input error of one kind"""
    a = Art("one", "Markdown")
    kind = r.pick(["dup_text_attr", "dup_covers", "dup_depends", "attr_expected", "not_a_reference", "md_duplicate", "md_missing", "mono_missing", "json_missing", "rust_missing",
                   "json_syntax", "json_field", "json_version", "json_duplicate", "json_identical", "json_no_title", "rust_syntax", "rust_encoding", "mark_no_args", "mark_bad_args",
                   "mark_outside", "rust_bad_pattern", "no_paths", "rust_no_paths", "two_paths", "directory", "mono_no_title"])
    req = "# ONE_1: T\n\n"
    text = None
    if kind == "dup_text_attr":
        text = req + r.pick(["", "Text.\n\n"]) + "Comment: a\n\nComment: b\n"
    elif kind in ("dup_covers", "dup_depends"):
        # the references exist, so that they are no problem of their own
        n = "Covers" if kind == "dup_covers" else "Depends"
        text = req + "%s: ONE_9\n\n%s: ONE_9\n" % (n, n)
    elif kind == "attr_expected":
        text = req + "Covers:\n\nfoo\n"
    elif kind == "not_a_reference":
        text = req + "Covers:\nfoo bar\n"
    elif kind == "md_duplicate":
        text = req * 2
    if text is not None:
        w = {"one.md": text.encode()}
        a.paths = ["one.md"]
        return a, w, kind, kind in ("dup_covers", "dup_depends")
    p = {"mo": "MonoRequirement", "js": "Json", "ru": "Rust", "ma": "Rust"}.get(kind[:2], "Markdown")
    a.parser = p
    f = "one." + {"MonoRequirement": "txt", "Json": "json", "Rust": "rs", "Markdown": "md"}[p]
    a.paths = [f]
    w = {}
    q = {"id": "ONE_1", "title": "T", "location": {"file": "x", "location_in_file": None}, "covers": [], "depends": [], "tags": [], "attributes": {}}
    j = lambda x: json.dumps(x).encode()
    if kind == "json_syntax":
        w[f] = b"[" + j(q)
    elif kind == "json_field":
        del q[r.pick(sorted(set(q) - {"title"}))]
        w[f] = j([q])
    elif kind == "json_version":
        w[f] = j({"version": 1, "requirements": [q]})
    elif kind == "json_duplicate":
        w[f] = j([q, dict(q, title="U")])
    elif kind == "json_identical":
        w[f] = j([q, q])
    elif kind == "json_no_title":
        w[f] = j([dict(q, title=None)])
        a.with_title = True
    elif kind == "mono_no_title":
        w[f] = r.pick([b"", b"--\n"])
        a.with_title = True
    elif kind == "rust_syntax":
        w[f] = b"fn f( {}"
    elif kind == "rust_encoding":
        w[f] = b"fn f() { \"\xff\"; }"
    elif kind == "mark_no_args":
        w[f] = b"fn f() { requirement_covered!(); }"
    elif kind == "mark_bad_args":
        w[f] = r.pick([b"fn f() { requirement_covered!(1); }", b"fn f() { requirement_covered!(A_1, 2); }", b"fn f() { requirement_covered!(A_1, \"t\", 3); }", b"fn f() { requirement_covered!(A_1 \"t\"); }"])
    elif kind == "mark_outside":
        w[f] = b"const X: () = { requirement_covered!(A_1); };"
    elif kind == "rust_bad_pattern":
        a.paths = ["a***"]
    elif kind in ("no_paths", "rust_no_paths"):
        a.paths = []
    elif kind == "two_paths":
        a.paths = [f, f + "2"]
    elif kind == "directory":
        a.paths = ["."]
    return a, w, kind, False


def c08_one(r, d, ctx, k):
    """an intact project but for one input error; it alone decides"""
    w = make_world(r, Opts(n_arts=[(1, 1)], n_reqs=[(1, 2), (3, 1)], link=0.0, noise=0.0, wrong_title=0.0))
    for a in w.arts:
        a.ignore = True
        a.with_title = None
    w.rels = []
    one, files, kind, refs = one_input_error(r)
    one.ignore = True
    w.files.update(files)
    w.arts.insert(r.randint(0, 1), one)
    kinds = [q for q in ALL_JOBS if r.p(0.5)] or [r.pick(ALL_JOBS)]
    only = r.pick(["Parse", "Trace", None])
    jobs = [Job("j%d" % n, q, f, r.pick(["out/r%d" % n, "-"]), r.pick([None, True, False])) for n, (q, f) in enumerate(r.shuffled(kinds)) if only in (None, q)]
    if not jobs:
        jobs = [Job("j0", only or "Parse", "Json", "-")]
    root, cwd, args = base_args(r, d)
    w.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    want = 1 if any(j.rc is not False for j in jobs) else 0
    if run.crashed() or run.rc != want:
        raise Violation("exit status %d, expected %d; the only problem is %s, jobs %r\n%s" % (run.rc, want, kind, [(j.query, j.format, j.file, j.rc) for j in jobs], run.describe()))
    ctx.count("one_" + kind)
    ctx.saw(w.digest() + str(k))


def c08_many(r, d, ctx, k):
    """an intact project with very many problems of one kind, of a number at which counters wrap around"""
    n = r.weighted([(256, 6), (512, 2), (1024, 1), (edge(r, 1025), 1)])
    w = World()
    kind = r.pick(["uncovered", "derived", "covers", "depends", "wrong_cover", "wrong_depend", "no_title", "unused", "duplicate", "across", "format", "untitled", "missing",
                   "uncovered_relations", "derived_artefacts", "marks", "attributes"])

    def art(id, parser, text, **kw):
        a = Art(id, parser)
        a.paths = [id + ".x"]
        if text is not None:
            w.files[id + ".x"] = text if isinstance(text, bytes) else text.encode()
        a.__dict__.update(kw)
        w.arts.append(a)
    js = lambda qs: json.dumps([{"id": i, "title": t, "location": {"file": "x", "location_in_file": None}, "covers": [], "depends": [], "tags": [], "attributes": {}} for i, t in qs])
    reqs = lambda pre, m, body="": "".join("# %s_%d: T\n\n%s" % (pre, i, body % i if "%d" in body else body) for i in range(m))
    parse = False
    if kind == "uncovered":
        art("u", "Markdown", reqs("U", n + 1))
        art("l", "Markdown", "# L_1: T\n\nCovers: U_%d\n" % r.randint(0, n))
        w.rels = [("u", ["l"])]
    elif kind == "derived":
        art("u", "Markdown", "# U_1: T\n\nDepends: L_%d\n" % r.randint(0, n))
        art("l", "Markdown", reqs("L", n + 1))
        w.rels = [("u", ["l"])]
    elif kind in ("covers", "depends"):
        name = kind.capitalize()
        if r.p(0.5) or n > 300:
            art("u", "Markdown", reqs("U", n, name + ": NO_%d\n\n"))
        else:
            art("u", "Markdown", "# U_1: T\n\n%s: %s\n" % (name, ", ".join("NO_%d" % i for i in range(n))))
    elif kind in ("wrong_cover", "no_title"):
        art("u", "Markdown", "# U_1: T\n", with_title=True if kind == "no_title" else None)
        art("l", "Markdown", reqs("L", n, "Covers:\n*   U_1" + (": wrong\n\n" if kind == "wrong_cover" else "\n\n")))
        w.rels = [("u", ["l"])]
    elif kind == "wrong_depend":
        if n > 300:
            art("u", "Markdown", reqs("U", n, "Depends:\n*   L_%d: wrong\n\n"))
        else:
            art("u", "Markdown", "# U_1: T\n\nDepends:\n" + "".join("*   L_%d: wrong\n" % i for i in range(n)))
        art("l", "Markdown", reqs("L", n))
        w.rels = [("u", ["l"])]
    elif kind == "unused":
        art("u", "Markdown", "no requirement\n")
        art("l", "Markdown", "none\n")
        w.rels = [("u", ["l"])] * n
    elif kind == "duplicate":
        parse = True
        art("u", "Markdown", "# U_1: T\n\n" * (n + 1))
    elif kind == "across":
        art("u", "Json", js([("A_%d" % i, "T") for i in range(n)]))
        art("v", "Json", js([("A_%d" % i, "T") for i in range(n)]))
    elif kind == "format":
        parse = True
        art("u", "Markdown", reqs("U", n, "Covers:\nfoo bar\n\n"))
    elif kind == "attributes":
        parse = True
        art("u", "Markdown", reqs("U", n, "Comment: a\n\nComment: b\n\n"))
    elif kind == "untitled":
        parse = True
        art("u", "Json", js([("A_%d" % i, None) for i in range(n)]), with_title=True)
    elif kind == "missing":
        parse = True
        for i in range(min(n, 512)):
            art("m%d" % i, r.pick(["Markdown", "Json", "MonoRequirement", "Rust"]), None)
    elif kind == "marks":
        parse = True
        art("u", "Rust", "fn f() {\n" + "requirement_covered!();\n" * n + "}\n")
    elif kind == "uncovered_relations":
        n = min(n, 300)
        art("u", "Markdown", "# U_1: T\n\n# U_2: T\n")
        for i in range(n):
            art("l%d" % i, "Markdown", "# L%d_1: T\n\nCovers: U_2\n" % i)
            w.rels.append(("u", ["l%d" % i]))
    elif kind == "derived_artefacts":
        n = min(n, 300)
        for i in range(n):
            art("l%d" % i, "Markdown", "# L%d_1: T\n" % i, ignore=False)
    jobs = [Job("j%d" % x, q, f, r.pick(["out/r%d" % x, "-"])) for x, (q, f) in enumerate(r.shuffled([j for j in ALL_JOBS if parse or j[0] == "Trace"])[:r.randint(1, 2)])]
    root, cwd, args = base_args(r, d)
    w.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    if run.crashed() or run.rc != 1:
        raise Violation("exit status %d, expected 1; %d problems of the kind %s, jobs %r\n%s" % (run.rc, n, kind, [(j.query, j.format) for j in jobs], run.describe()))
    ctx.count("many_" + kind)
    ctx.saw(w.digest() + str(k))


def c08(r, d, ctx, k):
    if r.p(0.015):
        return c08_many(r, d, ctx, k)
    if r.p(0.25):
        return c08_one(r, d, ctx, k)
    best = None
    target = r.weighted([("none", 2), ("one", 6), ("any", 2)])
    for _ in range(25 if target != "any" else 1):
        o = Opts(n_arts=[(1, 1), (2, 5), (3, 3)], n_reqs=[(1, 3), (2, 2), (3, 1)], link=r.pick([0.5, 0.95, 1.0]), noise=r.pick([0.0, 0.0, 0.1]),
                 wrong_title=r.pick([0.0, 0.0, 0.2]), dups=r.pick([0.0, 0.0, 0.1]))
        w = make_world(r, o)
        if r.p(0.5):
            for a in w.arts:
                a.ignore = True
        if r.p(0.15):
            # nothing but input errors
            w.rels = []
            for a in w.arts:
                a.ignore = True
                for q in a.found:
                    pass
        broken = r.p(0.12)
        exp = Expect(w, "/x")
        c = causes(exp)
        n = len(c) + (1 if broken else 0)
        if best is None or abs(n - (0 if target == "none" else 1)) < best[0]:
            best = (abs(n - (0 if target == "none" else 1)), w, broken, c)
        if best[0] == 0:
            break
    _, w, broken, c = best
    if broken:
        intact = w
        want = []
        while not want:  # some malformed files cause no error at all
            w = copy.deepcopy(intact)
            want, _ = add_broken(r, w, 1)
        if want:
            c = c + ["broken_input"]
            if not [x for x in c if x != "broken_input"]:
                # the broken artefact's own content must not be another cause
                for a in w.arts:
                    a.ignore = True
    exact = not broken
    jobs = []
    for n, (q, f) in enumerate(r.shuffled(ALL_JOBS)):
        jobs.append(Job("j%d" % n, q, f, r.pick(["out/r%d" % n, "-"]), r.pick([None, None, True, False])))
    pick = [r.pick(jobs) for _ in range(r.randint(1, 4) if not r.p(0.03) else r.randint(5, 40))]
    root, cwd, args = base_args(r, d)
    use_default = r.p(0.3)
    w.write(root, jobs, **({"default": [j.name for j in pick]} if use_default else {"default": [r.pick(jobs).name]} if r.p(0.3) else {}))
    run = run_cli(args + ([] if use_default else [j.name for j in pick]), cwd)
    exp = Expect(w, root, cwd)
    cs = causes(exp)
    if exact:
        status = lambda j: exp.status(j)
    else:
        # some input error is certain
        status = lambda j: True
    bad = [j for j in pick if j.rc is not False and status(j)]
    want_rc = 1 if bad else 0
    if run.crashed() or run.rc != want_rc:
        raise Violation("exit status %d, expected %d; causes %r, jobs %r\n%s" % (
            run.rc, want_rc, cs + (["broken_input"] if broken else []), [(j.query, j.format, j.file, j.rc) for j in pick], run.describe()))
    allc = cs + (["broken_input"] if broken else [])
    ctx.count("status_%d" % run.rc)
    if len(allc) == 1:
        ctx.count("only_" + allc[0] + ("" if bad else "_ignored"))
    elif not allc:
        ctx.count("no_problem")
    if allc and not bad:
        ctx.count("problems_that_must_not_count")
    ctx.saw(w.digest() + str([j.name for j in pick]))
    if k < 16:
        ctx.sample("causes %r, jobs %r -> %d" % (allc, [(j.query, j.format, j.rc) for j in pick], run.rc))


# ---------------------------------------------------------------- C09

TOKENS = {
    "Markdown": [b"#", b"# ", b"## A_1: x\n", b"Covers:", b"Covers: ", b"Depends:", b"* A_1", b"*   A_1: t\n", b"Comment:\n", b"\n\n", b"\r\n", b"\n", b":", b" ", b"\t",
                 b"\xff", b"\xc3", b"\xe2\x80", b"\xf0\x9f\x98\x80", b"\xef\xbb\xbf", b"\0", b"```", b"----\n", b",", b",,", b"A" * 300, b"\xc3\xa4", b"\xe6\x97\xa5", b"\r"],
    "MonoRequirement": [b"=> ", b"=>", b"=> A_1\n", b"=> A_1: t\n", b"\n", b"\r\n", b" ", b"\xff", b"\xc3\xa4", b"\xe6\x97\xa5", b"\0", b"=", b">", b": ", b"\r", b"A" * 300],
    "Json": [b"{", b"}", b"[", b"]", b",", b":", b"null", b"\"", b"\\u0000", b"\\ud800", b"1e999", b"-1", b"18446744073709551616", b"{\"version\":0,", b"\"requirements\":",
             b"\xff", b"\"id\":", b"\"location_in_file\":{\"Line\":0}", b"\xef\xbb\xbf", b"\n"],
    "Rust": [b"requirement_covered!(", b"requirement_covered!(A_1)", b"requirement_covered!(A_1, \"t\");", b"requirement_covered!{}", b"requirement_covered![];", b"fn f() {", b"}",
             b"mod m {", b"impl X {", b"trait T {", b"(", b")", b";", b",", b"\"", b"'", b"r#\"", b"\"#", b"/*", b"*/", b"//", b"\n", b"#!", b"#[", b"]", b"\xff", b"\xc3\xa4", b"'a",
             b"async ", b"unsafe ", b"|x| ", b"=> ", b"match x {", b"if ", b"else ", b"macro_rules! m { () => {} }", b"0x", b"1.e", b"b'", b"c\"", b"\0", b"\xef\xbb\xbf", b"impl<T> X<T> for Y {"],
    "config": [b"[", b"]", b"[[", b"]]", b"=", b"\"", b"'", b"\n", b"artefacts", b"relations", b"jobs", b"version = 0\n", b"version = 1\n", b"true", b"[]", b"{}", b"\xff", b"upper", b"lower",
               b"\"Rust\"", b"\"Json\"", b"\"Trace\"", b"paths = [\"**/*\"]\n", b"..", b"*", b"\\u0000", b"\"\"", b"-"],
}


def mutate(r, b, kind, n=None):
    b = bytearray(b)
    toks = TOKENS[kind]
    for _ in range(n or r.weighted([(1, 3), (2, 2), (5, 2), (20, 1)])):
        k = r.randrange(9)
        i = r.randint(0, len(b))
        if k <= 2:
            b[i:i] = r.pick(toks)
        elif k == 3 and b:
            j = min(len(b), i + r.weighted([(1, 4), (4, 2), (40, 1)]))
            del b[i:j]
        elif k == 4 and b:
            b[min(i, len(b) - 1)] = r.randrange(256)
        elif k == 5 and b:
            j = min(len(b), i + r.randint(1, 60))
            x = r.randint(0, len(b))
            b[x:x] = b[i:j]
        elif k == 6:
            del b[i:]
        elif k == 7 and b:
            j = min(len(b), i + len(r.pick(toks)))
            b[i:j] = r.pick(toks)
        elif k == 8 and b:
            b[min(i, len(b) - 1)] ^= 1 << r.randrange(8)
        if len(b) > 60000:
            del b[60000:]
    return bytes(b)


def token_soup(r, kind):
    return b"".join(r.pick(TOKENS[kind]) for _ in range(r.weighted([(0, 0.3), (1, 2), (4, 3), (20, 3), (100, 1)])))


def raw_bytes(r):
    return bytes(r.randrange(256) for _ in range(r.weighted([(0, 1), (1, 2), (3, 2), (30, 2), (300, 1)])))


def depth_ok(b):
    """nesting of moderate depth"""
    d = m = 0
    for c in b:
        if c in b"([{<":
            d += 1
            m = max(m, d)
        elif c in b")]}>":
            d = max(0, d - 1)
    run = max((len(x) for x in re.findall(rb"(?:[!&*|?-]\s*){30,}", b)), default=0)
    return m < 120 and run < 200


NL = [b"\n", b"\r\n", b"\r", b""]


WIDE = "äéßñΩжд日本語가😀🦀𝔘\u0301\u00a0\u2028İſẞ"
WIDE_ID = "äéßñΩжд日本語가𝔘"


def long_text(r, chars=WIDE, limit=2500):
    """multi-byte text of any length and alignment"""
    n = r.weighted([(r.randint(0, 12), 2), (r.randint(0, 90), 3), (r.randint(60, 400), 3), (r.randint(300, 900), 1)])
    t = "".join(r.pick("abcd") for _ in range(r.randrange(5)))
    if r.p(0.6):
        t += r.pick(chars) * n
    else:
        t += "".join(r.pick(chars + "abc_") if r.p(0.9) else "a" for _ in range(n))
    while len(t.encode()) > limit:
        t = t[:-1]
    return t


def long_id(r):
    return "A" + long_text(r, WIDE_ID) + str(r.randrange(10))


def long_world(r, w):
    """everything that may appear in a message or report is long and not ASCII"""
    w.arts, w.rels, w.files = [], [], {}
    ids = [long_id(r) for _ in range(4)]
    T = lambda: long_text(r).strip() or "t"
    def ref():
        return r.pick(ids) if r.p(0.6) else long_id(r)
    def name(ext):
        return "n/" + r.pick(["", "f"]) + long_text(r, WIDE_ID, 200) + r.pick("xyz") + str(len(w.files)) + ext
    def md():
        o = []
        for _ in range(r.randint(1, 4)):
            o.append("#" * r.randint(1, 4) + " " + ref() + ": " + T())
            if r.p(0.5):
                o += ["", T()]
            for a in ("Covers", "Depends"):
                if r.p(0.7):
                    o += ["", a + ":"] + ["*   " + ref() + (": " + T() if r.p(0.5) else "") for _ in range(r.randint(1, 3))]
                    if r.p(0.2):
                        o.append(T())
            if r.p(0.3):
                o += ["", "Comment: " + T()] * r.randint(1, 2)
            if r.p(0.3):
                o += ["", T()]
            o.append("")
        return "\n".join(o).encode()
    def js():
        reqs = []
        for _ in range(r.randint(1, 3)):
            q = deep_json_req(r, ref())
            q["title"] = T()
            for c in q["covers"] + q["depends"]:
                c["id"] = ref()
                c["title"] = T() if r.p(0.6) else None
            q["location"]["file"] = r.pick([T(), "x"])
            if r.p(0.3):
                q["attributes"] = {T(): T()}
            reqs.append(q)
        if r.p(0.5):
            q = reqs[0]
            how = r.randrange(6)
            if how == 0:
                q["covers"] = T()
            elif how == 1:
                q["location"] = {"file": "x", "location_in_file": {T(): 1}}
            elif how == 2:
                q["location"] = {"file": "x", "location_in_file": {"Line": T()}}
            elif how == 3:
                q["tags"] = [T(), 1]
            elif how == 4:
                q["attributes"] = T()
            else:
                reqs = T()
        return json.dumps(reqs, ensure_ascii=r.p(0.3)).encode("utf-8", "surrogatepass")
    def rs():
        q = lambda t: json.dumps(t, ensure_ascii=False)
        o = []
        for _ in range(r.randint(1, 3)):
            m = r.randrange(5)
            a = [q(ref()), "A" + "ä" * r.randint(0, 60), "A_1, " + q(T()), q(ref()) + ", " + q(T()), q(T()) + " x " + q(T())][m]
            o.append("mod m%s%d { fn f%s() { requirement_covered!(%s); } }" % ("ä" * r.randint(0, 50), len(o), "é" * r.randint(0, 50), a))
        if r.p(0.2):
            o.append("fn " + q(T()))
        return "\n".join(o).encode()
    def mono():
        return "\n".join([T()] + [T() + " => " + ref() + (": " + T() if r.p(0.5) else "") for _ in range(r.randint(0, 3))]).encode()
    for p, g, ext in r.shuffled([("Markdown", md, ".md"), ("Json", js, ".json"), ("Rust", rs, ".rs"), ("MonoRequirement", mono, ".txt")]):
        a = Art(long_text(r, WIDE, 300) + str(len(w.arts)), p)
        f = name(ext)
        a.paths = a.files = [f]
        if r.p(0.9):
            w.files[f] = g()
        a.with_title = r.pick([None, True])
        a.ignore = r.pick([None, True, False])
        w.arts.append(a)
    x = [a.id for a in w.arts]
    for i in range(len(x) - 1):
        if r.p(0.7):
            w.rels.append((x[i], r.some(x[i + 1:], 0.6) or [x[i + 1]]))


def large_world(r, w):
    """large inputs: many requirements, long lines, many references"""
    how = r.pick(["many", "line", "refs", "rust", "mono", "blank"])
    n = r.pick([500, 2000])
    md = lambda i, x: ("# R_%d: T\n\n%s\n" % (i, x))
    if how == "many":
        u = "".join(md(i, "") for i in range(n))
        l = "".join("# L_%d: T\n\nCovers:\n*   R_%d: T\n\n" % (i, i) for i in range(n))
    elif how == "line":
        u = "# R_0: " + "x" * 300000 + "\n\n" + "ä y" * 100000 + "\n\nCovers: " + ", ".join("R_%d" % i for i in range(300)) + "\n"
        l = "# L_0: T\n\nCovers:\n*   R_0: " + " " * 300000 + "x\n"
    elif how == "refs":
        u = "".join(md(i, "") for i in range(150))
        l = "# L_0: T\n\nCovers:\n" + "".join("*   R_%d\n" % i for i in range(150))
    elif how == "blank":
        u = "\n" * 200000 + "# R_0: T\n" + " \n" * 200000 + "Comment:\n" + "\n" * 100000
        l = "#" * 100000 + "\n# L_0: T\n\n" + "##\n" * 20000
    else:
        u = md(0, "x")
        l = ""
    w.arts = [Art("u", "Markdown"), Art("l", "Markdown")]
    w.files = {"u.md": u.encode(), "l.md": l.encode()}
    if how == "rust":
        w.arts[1] = Art("l", "Rust")
        w.files["l.rs"] = "".join("fn f%d() { requirement_covered!(R_0); %s }\n" % (i, "let x = [" + "1," * 50 + "];") for i in range(n)).encode()
        del w.files["l.md"]
    elif how == "mono":
        w.arts[1] = Art("l", "MonoRequirement")
        w.files["l.txt"] = ("T\n" + "x => R_0\n" * n + "=>" * 100000 + "\n" + " " * 300000).encode()
        del w.files["l.md"]
    for a in w.arts:
        a.paths = a.files = [f for f in w.files if f.startswith(a.id + ".")]
    w.rels = [("u", ["l"])]


def odd_graph(r, w):
    """relations no sensible configuration has: cycles, to itself, repeated, empty"""
    x = [a.id for a in w.arts]
    w.rels = [(r.pick(x), [r.pick(x) for _ in range(r.randint(0, 4))]) for _ in range(r.randint(0, 5))]
    if r.p(0.5):
        w.rels += w.rels[:2]


def c09(r, d, ctx, k):
    mode = r.weighted([("mutate", 5), ("soup", 3), ("raw", 1), ("config", 2), ("errors", 1), ("long", 2.5), ("graph", 0.6), ("large", 0.05)])
    w = small(r)
    if mode == "long":
        long_world(r, w)
    elif mode == "large":
        large_world(r, w)
    elif mode == "graph":
        odd_graph(r, w)
    if mode == "errors":
        add_broken(r, w, 2)
    cfg_jobs = [Job("%s_%s" % (q.lower(), f.lower()), q, f, "out/%s_%s" % (q.lower(), f.lower())) for q, f in ALL_JOBS]
    intact_cfg = True
    if mode in ("mutate", "soup", "raw"):
        if mode != "mutate":
            # all formats are there
            for p, f in (("Markdown", "x.md"), ("Json", "x.json"), ("MonoRequirement", "xm.txt"), ("Rust", "x.rs")):
                a = Art("fuzz_" + p, p)
                a.paths = a.files = ["fz/" + f]
                w.arts.append(a)
                w.files["fz/" + f] = b""
        for a in w.arts:
            for f in a.files:
                if f not in w.files:
                    continue
                if mode == "mutate":
                    for _ in range(20):
                        b = mutate(r, w.files[f], a.parser)
                        if depth_ok(b):
                            w.files[f] = b
                            break
                elif f.startswith("fz/"):
                    b = token_soup(r, a.parser) if mode == "soup" else raw_bytes(r)
                    if a.parser == "Rust" and mode == "soup" and r.p(0.7):
                        b = b"fn f() {" + r.pick([b"", b"{", b"let x = "]) + b + r.pick([b"}", b"}}"])
                    if depth_ok(b):
                        w.files[f] = b
    root, cwd, args = base_args(r, d)
    w.write(root, cfg_jobs)
    if mode == "config":
        p = os.path.join(root, "requirements.toml")
        b = open(p, "rb").read()
        n = mutate(r, b, "config") if r.p(0.85) else token_soup(r, "config") if r.p(0.7) else raw_bytes(r)
        # job files stay inside the scratch directory
        if re.search(rb"file\s*=\s*[\"'](/|\.\.)", n) or b".." in n.replace(b"...", b"") or b"/" in re.sub(rb"out/|fz/|doc/|req/|src/|a b/|\xc3\xbc/|m\d+/|rs\d+/|m/|\*\*/", b"", n):
            n = b
        with open(p, "wb") as h:
            h.write(n)
        intact_cfg = n == b
    # the log level makes the tool format its data structures as well
    names = [j.name for j in r.shuffled(cfg_jobs)]
    run = run_cli(args + names, cwd, log=r.weighted([("off", 5), ("trace", 1)]))
    if run.crashed():
        raise Violation("crash: " + run.describe())
    if run.rc not in (0, 1, 2):
        raise Violation("unknown status: " + run.describe())
    if intact_cfg and run.rc == 2:
        raise Violation("input made the run fail: " + run.describe())
    if run.rc != 2 and intact_cfg:
        for j in cfg_jobs:
            p = os.path.join(root, j.file)
            try:
                data = open(p, "rb").read()
            except OSError as e:
                raise Violation("report %s is missing: %s" % (j.name, run.describe()))
            if j.format == "Json":
                load_json(p, run)
            elif j.format == "Tags" and not data.endswith(b"\n"):
                raise Violation("tags are cut: %s" % run.describe())
            elif j.format == "GnuError" and b"\nDerived Requirement\n" not in data:
                raise Violation("error report is cut: %s" % run.describe())
            elif j.name == "trace_markdown" and b"# Requirements" not in data:
                raise Violation("trace report is cut: %s" % run.describe())
    ctx.count("mode_" + mode)
    ctx.count("status_%d" % run.rc)
    ctx.saw(w.digest() + str(k if mode == "config" else ""))
    if k < 16:
        ctx.sample("%s -> %d" % (mode, run.rc))


# ---------------------------------------------------------------- C19

def outputs(root, jobs):
    res = {}
    for j in jobs:
        try:
            with open(os.path.join(root, j.file), "rb") as h:
                res[j.name] = h.read()
        except OSError:
            res[j.name] = None
    return res


def c19(r, d, ctx, k):
    w = make_world(r, Opts(dups=r.pick([0.0, 0.0, 0.2]), noise=r.pick([0.0, 0.1, 0.3]), big=r.p(0.01)))
    if r.p(0.3):
        add_broken(r, w, r.randint(1, 2))
    jobs = [Job("%s_%s" % (q, f), q, f, "out/%s_%s" % (q, f)) for q, f in ALL_JOBS]
    root = os.path.join(d, "w")
    names = [j.name for j in jobs]
    base = ["-b", root, "-c", os.path.join(root, "requirements.toml")]
    w.write(root, jobs, default=names)

    def go(args, cwd=d, env=None, log="off"):
        for j in jobs:
            try:
                os.unlink(os.path.join(root, j.file))
            except OSError:
                pass
        run = run_cli(base + args, cwd, env=env, log=log)
        if run.crashed() or run.rc not in (0, 1):
            raise Violation("no reports: " + run.describe())
        return run, outputs(root, jobs)

    first, ref = go(names)

    def same(what, run, out, only=None):
        for n in (only or names):
            if out[n] != ref[n]:
                a, b = (ref[n] or b"").split(b"\n"), (out[n] or b"").split(b"\n")
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation("%s: report %s differs in line %d: %r against %r" % (what, n, i + 1, a[i:i + 3], b[i:i + 3]))
        if only is None and run.rc != first.rc:
            raise Violation("%s: status %d against %d" % (what, run.rc, first.rc))
        if run.out != first.out:
            raise Violation("%s: standard output %r" % (what, run.out[:200]))
        ctx.count(what)
    for _ in range(2):
        same("again", *go(names))
    for v in r.shuffled(["order", "default", "repeat", "cwd", "log", "env", "alone", "config_order", "relation_order"])[:4]:
        if v == "order":
            same(v, *go(r.shuffled(names)))
        elif v == "default":
            same(v, *go([]))
        elif v == "repeat":
            same(v, *go(r.shuffled(names + names[:r.randint(1, 6)])))
        elif v == "cwd":
            c = os.path.join(d, "else where")
            os.makedirs(c, exist_ok=True)
            same(v, *go(names, cwd=r.pick(["/", c, root, os.path.join(root, "out")])))
        elif v == "log":
            lv = r.pick(["error", "warn", "info", "debug", "trace", "reqtrace=trace", None])
            run, out = go(names, log=lv, env={"REQTRACE_LOG": r.pick(["trace", "off", "info"])} if r.p(0.5) else None)
            same(v, run, out)
        elif v == "env":
            same(v, *go(names, env={"LANG": r.pick(["C", "tr_TR.UTF-8", "de_DE"]), "LC_ALL": "C", "TZ": "Asia/Tokyo", "HOME": d, "COLUMNS": "40", "RUST_BACKTRACE": "1", "TERM": "dumb", "NO_COLOR": "1"}))
        elif v == "alone":
            rcs = []
            for n in r.shuffled(names)[:3]:
                run, out = go([n])
                same(v, run, out, only=[n])
                rcs.append(run.rc)
            if first.rc == 0 and any(rcs):
                raise Violation("status of a job alone is 1, of all jobs 0")
        elif v == "config_order":
            cfg = w.config(r.shuffled(jobs), default=names, art_order=r.shuffled(w.arts))
            open(os.path.join(root, "requirements.toml"), "w", encoding="utf-8").write(cfg)
            same(v, *go(names))
            w.write(root, jobs, default=names)
        elif v == "relation_order" and len(w.rels) > 1:
            cfg = w.config(jobs, default=names, rel_order=r.shuffled(w.rels))
            open(os.path.join(root, "requirements.toml"), "w", encoding="utf-8").write(cfg)
            run, out = go(names)
            w.write(root, jobs, default=names)
            diff_eq("relation order: status", first.rc, run.rc)
            for n in names:
                if n.startswith("Parse"):
                    diff_eq("relation order: report %s" % n, ref[n], out[n])
            canon = lambda b: canon_trace(json.loads(b))
            x, y = canon(ref["Trace_Json"]), canon(out["Trace_Json"])
            for key in x:
                if x[key] != y[key]:
                    raise Violation("order of relations changes %s of the trace" % key)
            for n in ("Trace_GnuError",):
                diff_eq("relation order: lines of %s" % n, sorted(ref[n].split(b"\n")), sorted(out[n].split(b"\n")))
            ctx.count(v)
    ctx.count("status_%d" % first.rc)
    ctx.count("bytes_compared", sum(len(x) for x in ref.values() if x))
    ctx.saw(w.digest())
    if k < 16:
        ctx.sample("%d artefacts, %d relations, %d bytes of reports" % (len(w.arts), len(w.rels), sum(len(x) for x in ref.values() if x)))


def canon_trace(t):
    t = t["trace"]
    return {"artefacts": json.dumps(t["artefacts"], sort_keys=True), "derived": json.dumps({a: sorted(x) for a, x in t["derived"].items()}, sort_keys=True),
            "errors": sorted(json.dumps(e, sort_keys=True) for e in t["errors"]),
            "relations": sorted(json.dumps(dict(x, covered=sorted(x["covered"], key=repr), uncovered=sorted(x["uncovered"])), sort_keys=True) for x in t["traced_relations"])}


# ---------------------------------------------------------------- C20

def shim_env(root, log, **kw):
    e = {"LD_PRELOAD": SHIM, "RTSHIM_ROOT": root, "RTSHIM_LOG": log}
    e.update(kw)
    return e


def events(log):
    out = []
    try:
        with open(log, encoding="utf-8", errors="surrogateescape") as h:
            for l in h:
                f = l.rstrip("\n").split("\t")
                if len(f) == 5:
                    out.append((int(f[0]), f[1], f[2], int(f[3]), f[4]))
    except OSError:
        pass
    return out


IN_ERR = [errno.EIO, errno.EACCES, errno.ENOMEM, errno.ESTALE, errno.EPERM]
OUT_ERR = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EDQUOT, errno.EFBIG, errno.EROFS, errno.EPIPE]


def c20(r, d, ctx, k):
    w = small(r, n_arts=[(1, 1), (2, 3), (3, 2)], n_reqs=[(0, 0.3), (1, 3), (3, 1)])
    if r.p(0.35):
        # reports with all kinds of problems in them
        w = small(r, n_arts=[(2, 3), (3, 2)], n_reqs=[(1, 3), (3, 1)], noise=0.4, dups=0.3, wrong_title=0.4)
        add_broken(r, w, r.randint(1, 2))
    tj = Job("tj", "Trace", "Json", "out/t.json")
    jobs = [tj]
    for n, (q, f) in enumerate(r.shuffled(ALL_JOBS)[:r.randint(1, 3)]):
        jobs.append(Job("j%d" % n, q, f, r.pick(["-", "a/b/c%d/r" % n, "r%d" % n, "out/r%d" % n]), r.pick([None, True])))
    r.shuffle(jobs)
    root = os.path.join(d, "w")
    cfg = os.path.join(root, "requirements.toml")
    names = [j.name for j in jobs]
    log = os.path.join(d, "log")

    def fresh():
        wipe(root)
        w.write(root, jobs)
        if os.path.exists(log):
            os.unlink(log)
    fresh()
    mode = r.weighted([("inject", 6), ("short", 3), ("real", 2)])
    base = run_cli(names, root, env=shim_env(root, log))
    if base.crashed() or base.rc not in (0, 1):
        raise Violation("no reports: " + base.describe())
    ev = events(log)
    points = [e for e in ev if e[0] > 0]
    if not points:
        raise Inconclusive("the monitor saw no operations")
    ref = outputs(root, [j for j in jobs if j.file != "-"])
    targets = {os.path.join(root, j.file) for j in jobs if j.file != "-"}

    def is_output(e):
        return e[1] in ("open_write", "write", "mkdir")
    if mode == "short":
        for _ in range(3):
            fresh()
            run = run_cli(names, root, env=shim_env(root, log, RTSHIM_SHORT=str(r.randrange(1, 10 ** 9))))
            if run.crashed() or run.rc != base.rc:
                raise Violation("short or interrupted calls: status %s, expected %s: %s" % (run.rc, base.rc, run.describe()))
            got = outputs(root, [j for j in jobs if j.file != "-"])
            for n in got:
                if got[n] != ref[n]:
                    raise Violation("short or interrupted calls change report %s: %r against %r" % (n, (ref[n] or b"")[:300], (got[n] or b"")[:300]))
            diff_eq("standard output with short or interrupted calls", base.out, run.out)
            e2 = events(log)
            ctx.count("interrupted_calls", sum(1 for e in e2 if e[4] == "interrupted"))
            ctx.count("short_calls", sum(1 for e in e2 if e[4] == "short"))
    elif mode == "inject":
        # every kind of operation on every file: first, last and some between; within long series of writes those
        # pieces of text that were hit least often
        kind_of = {os.path.join(root, j.file): j.query + j.format for j in jobs if j.file != "-"}
        by_class, groups, prev = {}, {}, {}
        for e in points:
            groups.setdefault((e[1], e[2]), []).append(e)
            if e[1] == "write":
                c = (kind_of.get(e[2], "-"), prev.get(e[2]), e[4])
                prev[e[2]] = e[4]
                by_class.setdefault(c, []).append(e)
        st = ctx.__dict__.setdefault("c20", {"seen": Counter(), "hit": Counter()})
        for t in {e[4] for e in points}:
            st["seen"][t] += 1
        # text that comes in several projects is the report's own, all other is the project's
        lit = lambda t: t if t is None or st["seen"][t] >= 3 or ctx.evaluations < 5 else "?"
        classes = {}
        for (f, p1, p2), es in by_class.items():
            if lit(p2) != "?":
                classes.setdefault((f, lit(p1), p2), []).extend(es)
        chosen = []
        if ctx.tier == "thorough" and len(points) < 2500 and r.p(0.05):
            chosen, rare = points, []
            ctx.count("all_points_of_a_run")
        else:
            rare = sorted(classes, key=lambda c: (st["hit"][c], r.random()))[:10 if ctx.tier != "thorough" else 25]
            for c in rare:
                st["hit"][c] += 1
                chosen.append(r.pick(classes[c]))
            some = []
            for g in groups.values():
                some += list({e[0]: e for e in [g[0], g[-1], r.pick(g)]}.values())
            chosen += r.shuffled(some)[:14 if ctx.tier != "thorough" else 40]
        for c in rare:
            ctx.saw("write point " + str(c))
        for e in chosen:
            out = is_output(e)
            fresh()
            er = r.pick(OUT_ERR if out else IN_ERR)
            run = run_cli(names, root, env=shim_env(root, log, RTSHIM_FAIL="%d:%d" % (e[0], er)))
            what = "%s of %s (operation %d) failed with %s" % (e[1], e[2], e[0], errno.errorcode[er])
            hit = [x for x in events(log) if x[4] == "injected"]
            if not hit:
                ctx.count("fault_point_not_reached")     # the run took another way
                continue
            if hit[0][1] != e[1] or hit[0][2] != e[2]:
                # the run took another way; judge what was really hit
                e = hit[0]
                out = is_output(e)
                what = "%s of %s failed with %s" % (e[1], e[2], errno.errorcode[er])
                ctx.count("other_operation_hit")
            if run.crashed():
                raise Violation("%s: crash: %s" % (what, run.describe()))
            if out or e[2] == cfg:
                if run.rc != 2:
                    raise Violation("%s: status %d, expected 2: %s" % (what, run.rc, run.describe()))
                if not run.err.strip():
                    raise Violation("%s: no message on stderr" % what)
            else:
                if run.rc == 0:
                    raise Violation("%s: status 0: %s" % (what, run.describe()))
                t = load_json(os.path.join(root, tj.file), run)["trace"]
                files = set()
                for o in t["artefacts"].values():
                    for x in o["errors"]:
                        (kk, v), = x.items()
                        if kk in ("Io", "Format"):
                            files.add(norm_file(v[0] if kk == "Io" else v[0]["file"], root))
                if e[1] == "opendir":
                    if not any(f == e[2] or f.startswith(e[2] + "/") for f in files):
                        raise Violation("%s: no error about that directory in the trace, only about %r" % (what, sorted(files)))
                elif e[2] not in files:
                    raise Violation("%s: no error about that file in the trace, only about %r" % (what, sorted(files)))
            ctx.count("fault_%s_%s" % (e[1], "stdout" if e[2] == "<stdout>" else "config" if e[2] == cfg else "report" if out else "input"))
            ctx.counts["faults"] += 1
    else:
        j = r.pick(jobs)
        how = r.pick(["devfull", "stdout_full", "dir_in_way", "file_in_way", "fsize", "dangling_dir"])
        fresh()
        want2 = True
        kw = {}
        stdout = None
        nonempty = [x for x in jobs if x.format in ("Json", "GnuError", "Tags")]
        j = r.pick(nonempty)
        if how == "devfull":
            j.file = "/dev/full"
            fresh()
        elif how == "stdout_full":
            j.file = "-"
            fresh()
            stdout = open("/dev/full", "wb")
        elif how == "dir_in_way":
            j.file = "out/dir"
            fresh()
            os.makedirs(os.path.join(root, "out/dir"))
        elif how == "file_in_way":
            j.file = "blocked/x/r"
            fresh()
            open(os.path.join(root, "blocked"), "w").close()
        elif how == "dangling_dir":
            j.file = "blocked/r"
            fresh()
            os.symlink("/nonexistent/dir", os.path.join(root, "blocked"))
        else:
            size = min(len(x) for x in ref.values() if x) if any(ref.values()) else 0
            big = max([len(x) for x in ref.values() if x] + [0])
            if big < 2:
                return
            kw["fsize"] = r.randrange(1, big)
        run = run_cli(names, root, stdout=stdout, **kw)
        if stdout:
            stdout.close()
        if run.crashed() or run.rc != 2:
            raise Violation("%s: status %s, expected 2: %s" % (how, run.rc, run.describe()))
        if not run.err.strip():
            raise Violation("%s: no message on stderr" % how)
        ctx.count("real_" + how)
    ctx.count("operations_observed", len(ev))
    ctx.saw(w.digest() + str(k))
    if k < 16:
        ctx.sample("%s: %d fault points, operations %r" % (mode, len(points), sorted({e[1] for e in points})))


# ---------------------------------------------------------------- C21

def c21(r, d, ctx, k):
    w = small(r)
    root = os.path.join(d, "w")
    other = os.path.join(d, "other")
    os.makedirs(other)
    n = r.randint(1, 6)
    jobs = []
    for i in range(n):
        q, f = r.pick(ALL_JOBS)
        file = r.weighted([("-", 3), ("r%d" % i, 2), ("out/r%d.x" % i, 2), ("a/b/c/r%d" % i, 2), (os.path.join(other, "abs%d" % i), 1), ("../other/up%d" % i, 1),
                           ("./dot/../r%d" % i, 0.5), ("out/sp ace ü%d" % i, 1), ("r0", 1), ("--", 0.3), ("-x%d" % i, 0.3), ("./-", 0.3), ("out/-", 0.3)])
        if file.startswith("./dot/"):
            os.makedirs(os.path.join(root, "dot"), exist_ok=True)
        jobs.append(Job("j%d" % i, q, f, file, r.pick([None, None, False, True])))
    w.write(root, jobs)
    k2 = r.randrange(3)
    cwd, args = ((d, ["-b", "w", "-c", "w/requirements.toml"]), (root, []), (other, ["-b", root, "-c", os.path.join(root, "requirements.toml")]))[k2]
    # what each job's report is: the same job, alone, to standard output
    texts = {}
    ref_jobs = [Job("s%d" % i, j.query, j.format, "-") for i, j in enumerate(jobs)]
    alt = os.path.join(d, "alt.toml")
    with open(alt, "w", encoding="utf-8") as h:
        h.write(w.config(ref_jobs))
    aargs = [a if a not in ("w/requirements.toml", os.path.join(root, "requirements.toml")) else alt for a in args] if args else ["-c", alt]
    for i, j in enumerate(jobs):
        key = (j.query, j.format)
        if key not in texts:
            before = snapshot(d)
            run = run_cli(aargs + ["s%d" % i], cwd)
            if run.crashed() or run.rc not in (0, 1):
                raise Violation("no report: " + run.describe())
            diff = snap_diff(before, snapshot(d))
            if diff:
                raise Violation("a job that writes to standard output changed files: %r" % diff)
            texts[key] = run.out
    # old content
    for j in jobs:
        if j.file != "-" and r.p(0.6):
            p = os.path.join(root, j.file)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(r.pick([b"", b"old\n", b"x" * 100000, texts[(j.query, j.format)] + b"tail", texts[(j.query, j.format)][:-3]]))
            ctx.count("old_content")
    # bystanders
    for b in ("out/keep.txt", "keep", "a/keep"):
        if r.p(0.4):
            p = os.path.join(root, b)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write("keep")
    before = snapshot(d)
    order = [r.pick(jobs) for _ in range(r.randint(1, 6) if not r.p(0.02) else r.randint(7, 60))]
    run = run_cli(args + ["--"] + [j.name for j in order] if r.p(0.2) else args + [j.name for j in order], cwd, log=r.pick(["off", "off", "info", "trace"]))
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("no report: " + run.describe())
    after = snapshot(d)
    want = {}
    out = b""
    for j in order:
        t = texts[(j.query, j.format)]
        if j.file == "-":
            out += t
            ctx.count("to_stdout")
        else:
            p = os.path.normpath(os.path.join(root, j.file))
            want[p] = t
            ctx.count("to_file")
    if run.out != out:
        raise Violation("standard output is not the reports in order: expected %r, observed %r\n%s" % (out[:400], run.out[:400], run.describe()))
    dirs = set()
    for p, t in want.items():
        if p not in after or after[p][0] != "file":
            raise Violation("report %s is missing\n%s" % (p, run.describe()))
        if after[p][2] != t:
            raise Violation("file %s does not contain exactly the report: expected %d bytes, has %d: %r" % (p, len(t), len(after[p][2]), after[p][2][:300]))
        q = os.path.dirname(p)
        while len(q) > len(d):
            dirs.add(q)
            q = os.path.dirname(q)
    for x in set(before) | set(after):
        if x in want:
            continue
        if x in dirs and x not in before and after[x] == ("dir",):
            ctx.count("directories_created")
            continue
        if before.get(x) != after.get(x):
            raise Violation("%s: %s before, %s after the run\n%s" % (x, describe(before.get(x)), describe(after.get(x)), run.describe()))
    ctx.count("files_watched", len(before))
    ctx.saw(w.digest() + str([j.name for j in order]))
    if k < 16:
        ctx.sample("jobs to %r from %s" % ([j.file for j in order], cwd))


# ---------------------------------------------------------------- C22

def comp_re(p):
    out, i = "", 0
    while i < len(p):
        c = p[i]
        if c == "*":
            out += "[^/]*"
        elif c == "?":
            out += "[^/]"
        elif c == "[":
            j = p.index("]", i + 2 if p[i + 1] in "!" else i + 1)
            body = p[i + 1:j]
            neg = body.startswith("!")
            body = body[1:] if neg else body
            out += "[%s%s]" % ("^/" if neg else "", re.sub(r"([\\^\[\]])", r"\\\1", body))
            i = j
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out + r"\Z", re.S)


def glob_match(pat, path):
    def rec(ps, cs):
        if not ps:
            return not cs
        if ps[0] == "**":
            return any(rec(ps[1:], cs[n:]) for n in range(len(cs) + 1))
        return bool(cs) and comp_re(ps[0]).match(cs[0]) is not None and rec(ps[1:], cs[1:])
    return rec(pat.split("/"), path.split("/"))


BASES = ["w", "w", "b[1]", "b*", "b?x", "sp ace", "ü", "{a,b}", "[!x]", "a.b", "b[", "w-", "**"]
PATS = ["**/*.rs", "*.rs", "src/*.rs", "src/**/*.rs", "src/?.rs", "src/[ab].rs", "src/[!a].rs", "*/*.rs", "src/a*.rs", "**/a.rs", "src/sub/**/*.rs", "*/sub/*.rs", "**/x*",
        "src/[a-c]?.rs", "nomatch/*.rs"]
NAMES = ["a.rs", "b.rs", "c.rs", "ab.rs", "src/a.rs", "src/b.rs", "src/c.rs", "src/ab.rs", "src/A.rs", "src/a.rs.bak", "src/sub/a.rs", "src/sub/deep/x.rs", "other/sub/y.rs", "other/a.rs",
         "x.txt", "src/ä.rs", "src/b1.rs", "src/.a.rs", "src/a b.rs", "src/[a].rs", "other/x1.rs"]


def c22(r, d, ctx, k):
    base = r.pick(BASES)
    root = os.path.join(d, base)
    w = World()
    tree = {}
    tree_names = names_iter(r)
    for n in r.some(NAMES, 0.6) or ["a.rs"]:
        kind = r.weighted([("marks", 3), ("empty", 1), ("nothing", 1), ("broken", 1), ("latin", 0.5)])
        if kind == "marks" and r.p(0.6):
            kind = "many"
        tree[n] = render_rust(r, n, [Ref(i, None) for i in unique_ids(r, r.randint(1, 6))], tree_names, depth=2, simple=True, errors=r.pick([0.0, 0.0, 0.2])).s.text().encode() \
            if kind == "many" else {"marks": b"fn f_%d() { requirement_covered!(REQ_%d); }\n" % (len(tree), len(tree)), "empty": b"", "nothing": b"fn g() {}\n", "broken": b"fn (\n",
                   "latin": b"fn f() { \"\xe4\" }\n"}[kind]
    for n, b in tree.items():
        w.files[n] = b
    # decoys beside the base directory, which a pattern that is not anchored there would find
    for sib in ("b1", "bx", "bax", "a", "b", "w"):
        if sib != base and r.p(0.5):
            w.files["../%s/src/a.rs" % sib] = b"fn decoy() { requirement_covered!(REQ_1); }\n"
            w.files["../%s/a.rs" % sib] = b"fn decoy() { requirement_covered!(REQ_1); }\n"
    abs_dir = os.path.join(d, "abs")
    want = {}
    opened_opt = set()
    for n in range(r.randint(1, 4)):
        parser = r.weighted([("Rust", 5), ("Markdown", 1), ("MonoRequirement", 1), ("Json", 1)])
        a = Art("a%d" % n, parser)
        files = set()
        if parser == "Rust":
            for _ in range(r.randint(1, 3)):
                kk = r.random()
                if kk < 0.6:
                    p = r.pick(PATS)
                    a.paths.append(p)
                    files |= {os.path.join(root, f) for f in tree if glob_match(p, f)}
                elif kk < 0.85:
                    lit = [f for f in tree if not set(f) & set("*?[")]
                    if lit:
                        f = r.pick(lit)
                        a.paths.append(f)
                        files.add(os.path.join(root, f))
                elif kk < 0.93:
                    a.paths.append("not/there%d.rs" % n)
                    opened_opt.add(os.path.join(root, "not/there%d.rs" % n))
                else:
                    f = "abs%d.rs" % n
                    w.files[os.path.join(abs_dir, f)] = b"fn abs_%d() {}\n" % n
                    esc = "".join("[%s]" % c if c in "*?[" else c for c in abs_dir)
                    a.paths.append(os.path.join(esc, r.pick([f, "abs%d.*" % n])))
                    files.add(os.path.join(abs_dir, f))
            if not a.paths:
                a.paths = ["a.rs"]
                (files if "a.rs" in tree else opened_opt).add(os.path.join(root, "a.rs"))
        else:
            f = "in%d.%s" % (n, r.pick(["md", "json", "x"]))
            if r.p(0.2):
                f = r.pick(["missing%d" % n, "dir/missing%d.md" % n])
            elif r.p(0.15):
                w.dirs.append(f)
            else:
                w.files[f] = r.pick([b"", b"[]", b"# A_%d: x\n" % n, b"\xff\xfe", b"plain\n"])
            a.paths = [f]
            files.add(os.path.join(root, f))
        want[a.id] = {os.path.normpath(x) for x in files}
        w.arts.append(a)
    w.write(root, [TRACE_JSON, PARSE_JSON])
    how = r.randrange(5)
    if how == 0:
        cwd, args = root, []
    elif how == 1:
        cwd, args = d, ["-b", base, "-c", base + "/requirements.toml"]
    elif how == 2:
        cwd, args = d, ["-b", base + "/", "-c", base + "/requirements.toml"]
    elif how == 3:
        cwd, args = d, ["-b", root + r.pick(["", "/", "//"]), "-c", root + "/requirements.toml"]
    else:
        os.makedirs(os.path.join(d, "cc"), exist_ok=True)
        cwd, args = os.path.join(d, "cc"), ["-b", "../" + base, "-c", "../" + base + "/requirements.toml"]
    # only in a separate process environment: what is really opened
    log = "/dev/shm/rtshim.%d.log" % os.getpid() if os.path.isdir("/dev/shm") else "/tmp/rtshim.%d.log" % os.getpid()
    if os.path.exists(log):
        os.unlink(log)
    try:
        run = run_cli(args + ["trace_json"], cwd, env=shim_env(d, log))
        ev = events(log)
    finally:
        if os.path.exists(log):
            os.unlink(log)
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("no trace: " + run.describe())
    obs = observe_trace(os.path.join(root, "out/trace.json"), run, cwd)
    opened = {e[2] for e in ev if e[1] == "open_read"} - {os.path.join(root, "requirements.toml")}
    if not any(e[1] == "open_write" for e in ev):
        raise Inconclusive("the monitor saw no operations")
    listed_all = set()
    for a in w.arts:
        raw = obs.t["artefacts"][a.id]["files"]
        got = [norm_file(f, cwd) for f in raw]
        if len(set(got)) != len(got):
            raise Violation("files of %s are listed twice: %r" % (a.id, raw))
        diff_sets("files of %s with paths %r" % (a.id, a.paths), want[a.id], set(got) - opened_opt)
        listed_all |= set(got)
        ctx.count("files", len(got))
        ctx.count("patterns", sum(1 for p in a.paths if set(p) & set("*?[")))
        ctx.count("without_requirements", sum(1 for f in got if os.path.isfile(f) and b"requirement_covered" not in open(f, "rb").read()))
    diff_sets("files that were opened, against those listed", opened, listed_all - opened_opt)
    ctx.count("opened", len(opened))
    ctx.count("base_" + ("plain" if base == "w" else "odd"))
    ctx.saw(w.digest() + base, bool(listed_all))
    if k < 16:
        ctx.sample("base %r, %r" % (base, {a.id: (a.paths, sorted(os.path.relpath(x, d) for x in want[a.id])) for a in w.arts}))


def chk(f, quick, thorough, rule, need, **kw):
    d = {"case": f, "quick": quick, "thorough": thorough, "rule": rule, "need": need, "assumptions": ASSUME}
    d.update(kw)
    return d


CHECKS = {
    "C07": chk(c07, 16000, 100000, "random projects with one mistake in configuration or call each (and some with none); status, messages and a snapshot of all files before and after "
               "the run are checked; unused relations against the reference model.",
               {"mistake_" + m: 50 for m in ("missing", "directory", "toml", "version", "upper", "lower", "twice", "job", "default", "no_default", "format", "paths", "none")}
               | {"unused_relations": 50, "used_relations": 50}),
    "C08": chk(c08, 16000, 150000, "random projects, most of them with exactly one or no cause of failure, random lists of jobs with random permissions; the status against the reference "
               "model.", {"no_problem": 100, "problems_that_must_not_count": 100, "only_input_error": 5, "only_any_uncovered": 20, "only_any_derived": 20, "only_bad_covers": 5, "one_dup_text_attr": 5, "one_json_identical": 5, "one_mark_outside": 5,
                          "only_bad_depends": 5, "only_wrong_cover": 5, "only_wrong_depend": 5, "only_no_title": 5, "only_broken_input": 5}),
    "C09": chk(c09, 12000, 150000, "mutated, random and token-wise generated inputs and configurations under a limit of CPU time; status, crash signs and completeness of all reports "
               "are checked.", {"mode_long": 100, "mode_large": 5, "mode_graph": 50, "mode_mutate": 100, "mode_soup": 100, "mode_raw": 100, "mode_config": 100, "status_1": 100, "status_2": 50},
               extra=lambda root, counts, seed: fuzz(root, counts, 900, seed)),
    "C19": chk(c19, 2000, 40000, "random projects, run several times: the same, in other order, as default, repeated, alone, elsewhere, at other log levels, with permuted configuration; "
               "reports are compared byte by byte.", {"again": 100, "order": 50, "default": 50, "repeat": 50, "cwd": 50, "log": 50, "env": 50, "alone": 50, "config_order": 50, "relation_order": 20}),
    "C20": chk(c20, 4000, 30000, "random projects; every kind of file operation on every file is made to fail in turn (within long series of writes: those pieces of text that were hit least often), calls "
               "are cut short and interrupted, and real full devices and blocked paths are used. Counted as distinct: projects, and kinds of write operations (format, preceding text, text) made to fail.",
               {"fault_open_read_input": 100, "fault_read_input": 100, "fault_open_write_report": 100, "fault_write_report": 100, "fault_mkdir_report": 50, "fault_write_stdout": 50,
                "fault_opendir_input": 20, "fault_read_config": 20, "short_calls": 1000, "interrupted_calls": 1000, "real_devfull": 5, "real_stdout_full": 5, "real_fsize": 5},
               level="fault_enumeration"),
    "C21": chk(c21, 8000, 100000, "random projects and job lists with files in all kinds of places and old content; snapshots of the whole scratch directory before and after the run.",
               {"to_stdout": 500, "to_file": 500, "old_content": 500, "directories_created": 100}),
    "C22": chk(c22, 10000, 150000, "random file trees, base directory names and patterns; the reported file lists against an own matcher and against the files the process opened.",
               {"files": 1000, "patterns": 500, "opened": 1000, "base_odd": 100, "without_requirements": 100}),
}
