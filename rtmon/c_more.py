"""C25 messages about what stopped a run, C26 pipelines through exported Json, C27 effort in proportion to the input"""
import json, os, re, resource
from collections import Counter
from gen import *
from world import *
from util import Violation, run_cli, diff_eq, diff_sets
from c_trace import base_args, ASSUME
from c_system import ALL_JOBS, UNSUPPORTED, id_like, small, chk


# ---------------------------------------------------------------- C25

# lines at which the TOML syntax is certainly wrong, whatever follows
GARBAGE = ["garbage here", "= 3", "x = @", "x = \"unterminated", "x = 'unterminated", "x = tru", "x y = 1", "[jobs.x", "[a]]", "[[a]", "x = 1 2", "x = [1 2]", "x = \"\\q\"", ", ,", "x = {a = 1", "1 = ", "]", "\"a\" \"b\" = 1",
           "x = \"\u00fcber", "ü = 1", "x = 1__0", "x ="]


def c25(r, d, ctx, k):
    w = small(r, n_arts=[(1, 1), (2, 4), (4, 3), (9, 0.5)])
    root, cwd, args = base_args(r, d)
    shown = "requirements.toml" if "-c" not in args else args[args.index("-c") + 1]
    cfgfile = os.path.join(root, "requirements.toml")
    if r.p(0.2) and not args:
        # a configuration file of another name, elsewhere
        shown = r.pick(["cfg/my.toml", "./x.cfg", "dir ü/a b.toml"])
        args = ["-c", shown]
        cfgfile = os.path.join(root, shown)
        os.makedirs(os.path.dirname(cfgfile), exist_ok=True)
    ids = {a.id for a in w.arts}
    jobs = [Job("j%d" % n, q, f, "out/r%d" % n) for n, (q, f) in enumerate(r.shuffled(ALL_JOBS)[:r.randint(1, 3)])]
    names = [j.name for j in jobs]
    call = list(names)
    want = []           # texts that have to be in the message
    kw = {}
    where = None
    mistake = r.pick(["missing", "directory", "syntax", "syntax", "syntax", "encoding", "version", "ids", "ids", "ids", "job", "job", "default", "format", "write", "write", "value"])
    if mistake == "version":
        kw["version"] = r.pick([1, 2, 255, 256, 65536, 4294967295, r.randint(1, 1 << 31)])
        want = [shown, str(kw["version"])]
    elif mistake == "ids":
        # any number of wrong ids, all to be named
        n = r.weighted([(1, 3), (2, 2), (3, 2), (6, 1), (40, 0.1)])
        for j in range(n):
            how = r.pick(["upper", "lower", "twice"])
            if how == "twice" and w.arts:
                a = r.pick(w.arts)
                b = Art(a.id, r.pick(["Markdown", "Json", "Rust"]))
                b.paths = list(a.paths)
                w.arts.insert(r.randint(0, len(w.arts)), b)
                want.append(a.id)
            elif how == "upper":
                bad = id_like(r, r.pick(w.arts).id, ids).strip() or "none%d" % j
                if bad in ids:
                    bad = "none%d" % j
                w.rels.insert(r.randint(0, len(w.rels)), (bad, [r.pick(w.arts).id]))
                want.append(bad)
            else:
                bad = id_like(r, r.pick(w.arts).id, ids).strip() or "none%d" % j
                if bad in ids:
                    bad = "none%d" % j
                ls = [bad] + [a.id for a in w.arts if r.p(0.3)]
                r.shuffle(ls)
                w.rels.insert(r.randint(0, len(w.rels)), (r.pick(w.arts).id, ls))
                want.append(bad)
            ctx.count("id_" + how)
    elif mistake in ("job", "default"):
        bad = r.pick(["nojob", "J0", "j0x", "trace", "nöjob", "no job"])
        call.insert(r.randint(0, len(call)), bad)
        want = [bad]
        if mistake == "default":
            kw["default"], call = call, []
    elif mistake == "format":
        q, f = r.pick(UNSUPPORTED)
        jobs.append(Job("bad", q, f if f.startswith("{") else f.strip('"'), "out/bad"))
        call.insert(r.randint(0, len(call)), "bad")
        want = [q, re.search(r"\w+", f).group()]
    elif mistake == "write":
        j = r.pick(jobs)
        how = r.pick(["directory", "below_file", "missing_below_file", "full", "dir_slash"])
        if how == "full" and j.format not in ("Json", "Tags"):
            how = "directory"       # an empty report always fits
        if how == "directory":
            w.dirs.append("od/r")
            j.file = "od/r"
            want = ["od/r"]
        elif how == "dir_slash":
            w.dirs.append("odd")
            j.file = "odd/"
            want = ["odd"]
        elif how == "below_file":
            w.files["ofile"] = b"x"
            j.file = "ofile/r.txt"
            want = ["ofile"]
        elif how == "missing_below_file":
            w.files["ofile"] = b"x"
            j.file = "ofile/a/b"
            want = ["ofile"]
        else:
            j.file = "/dev/full"
            want = ["/dev/full", "space"]
        ctx.count("write_" + how)
    elif mistake in ("missing", "directory", "encoding", "syntax"):
        want = [shown]
    w.write(root, jobs, **kw)
    cfg = open(os.path.join(root, "requirements.toml"), encoding="utf-8").read()
    if mistake == "value":
        # a value that is not acceptable is quoted, or the missing key is named
        how = r.randrange(4)
        if how == 0:
            v = r.pick(["markdown", "Nope", "Jsn", "Xml2"])
            new = re.sub(r'(?m)^parser = ".*"$', 'parser = "%s"' % v, cfg, count=1)
            want = [shown, v]
        elif how == 1:
            v = r.pick(["parse", "Tracing"])
            new = re.sub(r'(?m)^query = ".*"$', 'query = "%s"' % v, cfg, count=1)
            want = [shown, v]
        elif how == 2:
            v = r.pick(["query", "format", "file"])
            new = re.sub(r'(?m)^%s = .*\n' % v, "", cfg, count=1)
            want = [shown, v]
        else:
            v = r.pick(["paths", "parser", "id"])
            new = re.sub(r'(?m)^%s = .*\n' % v, "", cfg, count=1)
            want = [shown, v]
        if new == cfg:
            return
        cfg = new
    elif mistake == "syntax":
        lines = cfg.split("\n")
        at = [n for n, l in enumerate(lines) if l.startswith("[") or not l] + [0, len(lines)]
        n = r.pick(at)
        lead = r.weighted([([], 3), (["# comment"] * r.randint(1, 3), 1), ([""] * r.randint(1, 300), 0.3), (["# ü \" ' ["], 1)])
        lines[n:n] = lead + [r.pick(GARBAGE)]
        where = n + len(lead) + 1
        cfg = "\n".join(lines)
        if r.p(0.15):
            cfg = cfg.replace("\n", "\r\n")
        ctx.count("syntax_line_" + ("1" if where == 1 else "deep"))
    raw = cfg.encode()
    if mistake == "encoding":
        p = r.randint(0, len(raw))
        raw = raw[:p] + b"\xff" + raw[p:]
    if cfgfile != os.path.join(root, "requirements.toml"):
        os.unlink(os.path.join(root, "requirements.toml"))
    if mistake == "directory":
        if os.path.exists(cfgfile):
            os.unlink(cfgfile)
        os.mkdir(cfgfile)
    elif mistake == "missing":
        if os.path.exists(cfgfile):
            os.unlink(cfgfile)
    else:
        with open(cfgfile, "wb") as h:
            h.write(raw)
    run = run_cli(args + call, cwd)
    err = run.err.decode("utf-8", "replace")
    what = "mistake %r" % mistake
    if run.crashed() or run.rc != 2:
        raise Violation("%s: status %r, expected 2\n%s" % (what, run.rc, run.describe()))
    for t, n in Counter(want).items():
        named = len(re.findall(r"(?<!\w)" + re.escape(t) + r"(?!\w)", err))
        if named < n:
            raise Violation("%s: the message names %r %d times, expected %d times\n%s" % (what, t, named, n, err[:2000]))
    if mistake == "ids":
        # no right id is named as wrong: as often as it is wrong, and no other
        named = Counter(re.findall(r"(?:unknown artefact|added twice:) (.*?)(?=, Relation|, Artefact|, artefact|$)", err.strip(), re.S))
        if named and set(named) - set(want) and not any("," in i for i in ids):
            raise Violation("%s: %r named though only %r are wrong\n%s" % (what, sorted(set(named) - set(want)), want, err[:2000]))
        ctx.count("wrong_ids", len(want))
    if where is not None and "%s:%d:" % (shown, where) not in err:
        raise Violation("%s: the message does not tell %s:%d\n%s\n%s" % (what, shown, where, err[:1000], cfg.split("\n")[where - 1][:200]))
    ctx.count("mistake_" + mistake)
    ctx.saw(w.digest() + mistake + repr(want) + repr(where))
    if k < 16:
        ctx.sample("%s: %s" % (mistake, err[:300]))


# ---------------------------------------------------------------- C26

def c26(r, d, ctx, k):
    """a project; some of its artefacts are then replaced by the Json that was exported from them"""
    w = make_world(r, Opts(noise=r.pick([0.0, 0.05, 0.3]), dups=r.pick([0.0, 0.0, 0.1]), big=r.p(0.003)))
    root, cwd, args = base_args(r, d)
    jobs = [TRACE_JSON, TRACE_MD, TRACE_GNU, PARSE_JSON, PARSE_MD, TAGS]
    w.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("no reports: " + run.describe())
    first = {j.name: open(os.path.join(root, j.file), "rb").read() for j in jobs}
    one = observe_trace(os.path.join(root, TRACE_JSON.file), run, cwd)
    rc1 = run.rc
    # export
    picked = [a for a in w.arts if r.p(r.pick([0.3, 0.7, 1.0]))] or list(w.arts)
    twice = r.p(0.2)
    by = {}
    for n, a in enumerate(picked):
        x = World()
        x.files = {}
        b = Art(a.id, a.parser)
        b.paths, b.ignore, b.with_title = a.paths, a.ignore, a.with_title
        x.arts = [b]
        f = "stage/%d.json" % n
        x.write(root, [Job("export", "Parse", "Json", f)])
        e = run_cli(args + ["export"], cwd)
        if e.crashed() or e.rc not in (0, 1):
            raise Violation("no export of artefact %s: %s" % (a.id, e.describe()))
        if twice:
            # through a second step of the pipeline
            b.parser, b.paths = "Json", [f]
            f = "stage/%d.second.json" % n
            x.write(root, [Job("export", "Parse", "Json", f)])
            e = run_cli(args + ["export"], cwd)
            if e.crashed() or e.rc not in (0, 1):
                raise Violation("no export of the export of artefact %s: %s" % (a.id, e.describe()))
        by[a.id] = f
    y = World()
    y.rels = w.rels
    for a in w.arts:
        b = Art(a.id, "Json" if a.id in by else a.parser)
        b.paths, b.ignore, b.with_title = ([by[a.id]] if a.id in by else a.paths), a.ignore, a.with_title
        y.arts.append(b)
    y.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("no reports from exported artefacts: " + run.describe())
    two = observe_trace(os.path.join(root, TRACE_JSON.file), run, cwd)
    diff_sets("artefacts", set(one.t["artefacts"]), set(two.t["artefacts"]))
    n = 0
    for i, o in one.t["artefacts"].items():
        q = two.t["artefacts"][i]
        diff_sets("requirements of %s" % i, set(o["requirements"]), set(q["requirements"]))
        for x in o["requirements"]:
            n += 1
            if o["requirements"][x] != q["requirements"][x]:
                raise Violation("requirement %s of artefact %s is another after export: %r, before %r" % (x, i, q["requirements"][x], o["requirements"][x]))
    for key in ("traced_relations", "derived", "errors"):
        if one.t[key] != two.t[key]:
            raise Violation("%s of the trace is another with exported artefacts %r:\n%s\nbefore:\n%s" % (
                key, sorted(by), json.dumps(two.t[key])[:1500], json.dumps(one.t[key])[:1500]))
    clean = not any(o["errors"] for o in one.t["artefacts"].values())
    if clean:
        diff_eq("exit status", rc1, run.rc)
        for j in (TRACE_MD, TRACE_GNU, PARSE_JSON, PARSE_MD, TAGS):
            now = open(os.path.join(root, j.file), "rb").read()
            if now != first[j.name]:
                raise Violation("report %s is another with exported artefacts %r" % (j.name, sorted(by)))
            ctx.count("reports_compared")
    ctx.count("artefacts_replaced", len(by))
    for a in picked:
        ctx.count("replaced_" + a.parser)
    ctx.count("second_step" if twice else "one_step")
    ctx.count("requirements", n)
    ctx.count("coverages", one.n_covered)
    ctx.count("tracing_errors", len(one.t["errors"]))
    ctx.saw(w.digest() + repr(sorted(by)), bool(n))
    if k < 16:
        ctx.sample("replaced %r of %r, %d coverages" % (sorted(by), sorted(one.t["artefacts"]), one.n_covered))


# ---------------------------------------------------------------- C27

def many(pre, n, body=lambda i: ""):
    return "".join("# %s_%d: T\n\n%s\n" % (pre, i, body(i)) for i in range(n)).encode()


def jreq(i, covers=(), depends=(), title="t", **kw):
    loc = {"file": "x", "location_in_file": None}
    q = {"id": i, "title": title, "location": loc, "covers": [{"id": c, "title": None, "location": loc} for c in covers],
         "depends": [{"id": c, "title": None, "location": loc} for c in depends], "tags": [], "attributes": {}}
    q.update(kw)
    return q


def js(*qs):
    return json.dumps(qs).encode()


class Big:
    """a project of n equal pieces"""

    def __init__(self):
        self.w = World()

    def art(self, id, parser, *texts, **kw):
        a = Art(id, parser)
        a.__dict__.update(kw)
        ext = {"Rust": "rs", "Json": "json"}.get(parser, "md")
        for n, t in enumerate(texts):
            f = "%s/f%d.%s" % (id, n, ext)
            self.w.files[f] = t
            a.paths.append(f)
        if kw.get("paths"):
            a.paths = kw["paths"]
        self.w.arts.append(a)
        return self

    def rel(self, u, *ls):
        self.w.rels.append((u, list(ls)))
        return self


GROW = {
    # name: (function of n, pieces in the smaller project)
    "covered": (lambda n: Big().art("u", "Markdown", many("U", n)).art("l", "Markdown", many("L", n, lambda i: "Covers: U_%d\n" % i)).rel("u", "l"), 3500),
    "depended": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "Depends: L_%d\n" % i)).art("l", "Markdown", many("L", n)).rel("u", "l"), 3500),
    "uncovered": (lambda n: Big().art("u", "Markdown", many("U", n)).art("l", "Markdown", many("L", n)).rel("u", "l"), 4500),
    "covered_by_many": (lambda n: Big().art("u", "Markdown", many("U", 1)).art("l", "Markdown", many("L", n, lambda i: "Covers: U_0\n")).rel("u", "l"), 4500),
    "needed_by_many": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "Depends: L_0\n")).art("l", "Markdown", many("L", 1)).rel("u", "l"), 4500),
    "many_covers": (lambda n: Big().art("u", "Markdown", many("U", n)).art("l", "Markdown", many("L", 1, lambda i: "Covers:\n" + "".join("* U_%d\n" % x for x in range(n)))).rel("u", "l"), 5000),
    "many_depends": (lambda n: Big().art("l", "Markdown", many("L", n)).art("u", "Markdown", many("U", 1, lambda i: "Depends: " + ", ".join("L_%d" % x for x in range(n)) + "\n")).rel("u", "l"), 5000),
    "same_cover": (lambda n: Big().art("u", "Markdown", many("U", 1)).art("l", "Markdown", many("L", 1, lambda i: "Covers:\n" + "* U_0\n" * n)).rel("u", "l"), 7000),
    "unknown_covers": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "Covers: X_%d\n" % i)), 4500),
    "unknown_depends": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "Depends: X_%d\n" % i)), 4500),
    "unknown_same": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "Depends: X\n")), 4500),
    "wrong_titles": (lambda n: Big().art("u", "Markdown", many("U", n)).art("l", "Markdown", many("L", n, lambda i: "Covers:\n* U_%d: wrong\n\n" % i)).rel("u", "l"), 3000),
    "no_titles": (lambda n: Big().art("u", "Markdown", many("U", n), with_title=True).art("l", "Markdown", many("L", n, lambda i: "Covers: U_%d\n" % i)).rel("u", "l"), 3000),
    "untitled": (lambda n: Big().art("u", "Json", js(*[jreq("J_%d" % i, title=None) for i in range(n)]), with_title=True), 8000),
    "duplicates": (lambda n: Big().art("u", "Markdown", many("U", 1) * n), 6000),
    "duplicates_across": (lambda n: Big().art("u", "Markdown", many("U", n)).art("v", "Markdown", many("U", n)), 3500),
    "format_errors": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "Covers:\nno reference\n")), 6000),
    "attribute_errors": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "Comment: a\n\nComment: b\n")), 6000),
    "description": (lambda n: Big().art("u", "Markdown", b"# U_1: T\n\n" + b"text of a description\n" * n), 150000),
    "paragraphs": (lambda n: Big().art("u", "Markdown", b"# U_1: T\n\nComment:\n" + b"text of it\n\n" * n), 150000),
    "attributes": (lambda n: Big().art("u", "Markdown", b"# U_1: T\n\n" + b"".join(b"Attr%d: x\n\n" % i for i in range(n))), 20000),
    "subheadings": (lambda n: Big().art("u", "Markdown", b"# U_1: T\n\n" + b"## x\n\ny\n" * n), 40000),
    "lines_outside": (lambda n: Big().art("u", "Markdown", b"text outside\n" * n), 200000),
    "headings_outside": (lambda n: Big().art("u", "Markdown", b"# heading\n\ntext\n" * n), 60000),
    "long_line": (lambda n: Big().art("u", "Markdown", b"# U_1: T\n\n" + b"word " * n + b"\n"), 1500000),
    "long_title": (lambda n: Big().art("u", "Markdown", b"# U_1: " + b"word " * n + b"\n"), 60000),
    "deep_graph": (lambda n: chain(n), 1500),
    "wide_graph": (lambda n: wide(n), 500),
    "fan_graph": (lambda n: fan(n), 1500),
    "marks_in_one": (lambda n: Big().art("c", "Rust", b"fn f() {\n" + b"requirement_covered!(A_1);\n" * n + b"}\n"), 6000),
    "marks_on_one_line": (lambda n: Big().art("c", "Rust", b"fn f() {" + b"requirement_covered!(A_1);" * n + b"}"), 6000),
    "functions": (lambda n: Big().art("c", "Rust", b"".join(b"fn f%d() { requirement_covered!(A_1); }\n" % i for i in range(n))), 3500),
    "methods": (lambda n: Big().art("c", "Rust", b"impl X {\n" + b"".join(b"fn f%d() { requirement_covered!(A_1); }\n" % i for i in range(n)) + b"}\n"), 3500),
    "wrong_marks": (lambda n: Big().art("c", "Rust", b"fn f() {\n" + b"requirement_covered!();\n" * n + b"}\n"), 6000),
    "let_else": (lambda n: Big().art("c", "Rust", b"fn f() {\n" + b"let Some(x) = y else { requirement_covered!(A_1); return; };\n" * n + b"}\n"), 2500),
    "code": (lambda n: Big().art("c", "Rust", b"fn f() {\n" + b"let a = b.c(|d| d + 1).e[2];\n" * n + b"}\n"), 4000),
    "rust_files": (lambda n: Big().art("c", "Rust", *[b"fn f%d() { requirement_covered!(A_1); }\n" % i for i in range(n)], paths=["c/*.rs"]), 2500),
    "rust_paths": (lambda n: Big().art("c", "Rust", *[b"fn f%d() { requirement_covered!(A_1); }\n" % i for i in range(n)]), 2000),
    "bad_files": (lambda n: Big().art("c", "Rust", *[b"fn f%d() { \n" % i for i in range(n)], paths=["c/*.rs"]), 2500),
    "missing_paths": (lambda n: Big().art("c", "Rust", paths=["c/none%d.rs" % i for i in range(n)]), 6000),
    "same_path": (lambda n: Big().art("c", "Rust", b"fn f() { requirement_covered!(A_1); }\n", paths=["c/f0.rs"] * n), 6000),
    "same_items": (lambda n: Big().art("c", "Rust", *[b"fn f() { requirement_covered!(A_1); }\n"] * n, paths=["c/*.rs"]), 2000),
    "mono": (lambda n: Big().art("l", "Markdown", many("A", n)).art("m", "MonoRequirement", b"title\n" + b"".join(b"x => A_%d: T\n" % i for i in range(n))).rel("m", "l"), 5000),
    "mono_text": (lambda n: Big().art("m", "MonoRequirement", b"title\n" + b"no reference\n" * n), 200000),
    "json": (lambda n: Big().art("j", "Json", js(*[jreq("J_%d" % i, ["J_0"]) for i in range(n)])), 5000),
    "json_tags": (lambda n: Big().art("j", "Json", js(jreq("J_1", tags=["t%d" % i for i in range(n)]))), 60000),
    "json_attributes": (lambda n: Big().art("j", "Json", js(jreq("J_1", attributes={"a%d" % i: "x" for i in range(n)}))), 30000),
    "json_refs": (lambda n: Big().art("u", "Markdown", many("A", n)).art("l", "Markdown", many("B", n)).art(
        "j", "Json", js(jreq("J_1", ["A_%d" % i for i in range(n)], ["B_%d" % i for i in range(n)]))).rel("u", "j").rel("j", "l"), 3000),
    "json_text": (lambda n: Big().art("j", "Json", js(jreq("J_1", attributes={"Description": "some text\n" * n}))), 100000),
    "refs_nowhere": (lambda n: Big().art("u", "Markdown", many("U", 1, lambda i: "Covers:\n" + "".join("* X_%d\n" % x for x in range(n)))), 5000),
    "depends_nowhere": (lambda n: Big().art("m", "MonoRequirement", b"title\n" + b"".join(b"x => A_%d: T\n" % i for i in range(n))), 5000),
    "described": (lambda n: Big().art("u", "Markdown", many("U", n, lambda i: "some text\n\nmore\n")), 8000),
    "rust_nested": (lambda n: Big().art("c", "Rust", b"".join(b"mod m%d { impl X { fn f() { if a { requirement_covered!(A_1); } } } }\n" % i for i in range(n))), 2500),
    "jobs": (None, 60),
}


def chain(n):
    b = Big()
    for i in range(n):
        b.art("a%d" % i, "Markdown", b"# A_%d: t\n\nCovers: A_%d\n" % (i, i + 1))
        if i:
            b.rel("a%d" % i, "a%d" % (i - 1))
    return b


def wide(n):
    """one relation over many artefacts"""
    b = Big().art("u", "Markdown", many("U", 1))
    for i in range(n):
        b.art("a%d" % i, "Markdown", b"# A_%d: t\n\nCovers: U_0\n" % i)
    return b.rel("u", *["a%d" % i for i in range(n)])


def fan(n):
    """many relations of one artefact"""
    b = Big().art("u", "Markdown", many("U", 1))
    for i in range(n):
        b.art("a%d" % i, "Markdown", b"# A_%d: t\n\nCovers: U_0\n" % i).rel("u", "a%d" % i)
    return b


TRACES = [TRACE_JSON, TRACE_MD, TRACE_GNU]
PARSES = [PARSE_JSON, PARSE_MD, TAGS]
FACTOR, LIMIT, FIXED = 8, 20, 1.0
SUSPECT, MORE, LIMIT2 = 10, 4, 8


def spent(d, name, b, jobs, cpu=100):
    root = os.path.join(d, name)
    b.w.write(root, jobs)
    u = resource.getrusage(resource.RUSAGE_CHILDREN)
    run = run_cli([j.name for j in jobs], root, cpu=cpu)
    v = resource.getrusage(resource.RUSAGE_CHILDREN)
    if run.rc == -24 and name[0] != "s":
        return float(cpu), 0
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("no reports of a large project: " + run.describe())
    size = sum(os.path.getsize(os.path.join(root, j.file)) for j in jobs)
    return v.ru_utime + v.ru_stime - u.ru_utime - u.ru_stime, size


def c27(r, d, ctx, k):
    """the same project with eight times as many pieces"""
    name = sorted(GROW)[k // 2 % len(GROW)]
    # a trace names each dangling reference with its whole requirement
    jobs = TRACES if k % 2 and not name.endswith("_nowhere") else PARSES
    f, n = GROW[name]
    n = n * r.randint(80, 120) // 100
    if ctx.tier != "quick" and k >= 2 * len(GROW):
        n = int(n * r.pick([0.5, 2]))
    if name == "jobs":
        f = lambda n: Big().art("u", "Markdown", many("U", 100, lambda i: "Covers: X\n"))
        more = lambda n: [Job("j%d" % i, jobs[i % 3].query, jobs[i % 3].format, "out/%d" % i) for i in range(n)]
    else:
        more = lambda n: jobs
    tries = []
    while True:
        i = len(tries)
        small, bytes1 = spent(d, "s%d" % i, f(n), more(n), 60)
        large, bytes2 = spent(d, "l%d" % i, f(n * FACTOR), more(n * FACTOR))
        tries.append((round(small, 3), round(large, 3)))
        huge = None
        if bytes2 > 1.5 * FACTOR * bytes1 + 10000:
            # the reports themselves grow faster (each covered requirement names its whole relation)
            ctx.count("not_judged")
            break
        if large < 100 and large <= LIMIT * small + FIXED:
            if large <= SUSPECT * small + 0.3:
                break
            # not clear yet: a quadratic part would dominate a still larger project
            huge, bytes3 = spent(d, "h%d" % i, f(n * FACTOR * MORE), more(n * FACTOR * MORE), 200)
            ctx.count("enlarged_again")
            if os.environ.get("RTMON_SLOW"):
                import sys
                sys.stderr.write("huge %s %s n=%d %.1f %.1f\n" % (name, jobs[0].query, n, large / small, huge / large))
            tries[-1] += (round(huge, 3),)
            if bytes3 > 1.5 * MORE * bytes2 or huge <= LIMIT2 * large:
                break
        if len(tries) == 3 or len(tries) == 2 and large >= 100:
            raise Violation("%s, %s: seconds of CPU time for %d, %d%s pieces: %r" % (
                name, jobs[0].query, n, n * FACTOR, ", %d" % (n * FACTOR * MORE) if huge else "", tries))
    ctx.count("grown_" + name)
    ctx.count("cpu_ms_small", int(1000 * tries[-1][0]))
    ctx.count("cpu_ms_large", int(1000 * tries[-1][1]))
    ctx.count("measured_again", len(tries) - 1)
    ctx.saw("%s %s %d" % (name, jobs[0].query, n))
    if os.environ.get("RTMON_SLOW"):
        import sys
        sys.stderr.write("grow %s %s n=%d %r %.1f\n" % (name, jobs[0].query, n, tries[-1], tries[-1][1] / max(tries[-1][0], 0.001)))
    if k < 16:
        ctx.sample("%s, %s jobs: %d pieces %.3f s, %d pieces %.3f s of CPU time" % (name, jobs[0].query, n, tries[-1][0], n * FACTOR, tries[-1][1]))


CHECKS = {
    "C25": chk(c25, 12000, 100000, "random projects with one or several mistakes in configuration or call, or a report that cannot be written; the message on standard error against what was made wrong and where.",
               {"mistake_" + m: 50 for m in ("missing", "directory", "syntax", "encoding", "version", "ids", "job", "default", "format", "write", "value")} | {"id_upper": 50, "id_lower": 50, "id_twice": 50, "wrong_ids": 200}),
    "C26": chk(c26, 3000, 40000, "random projects of all formats; a random part of the artefacts is replaced by Json exported from them by runs of their own, in one or two steps; all results before and after are compared.",
               {"replaced_" + p: 50 for p in ("Markdown", "Json", "Rust", "MonoRequirement")} | {"reports_compared": 100, "coverages": 500, "tracing_errors": 100, "second_step": 50}),
    "C27": chk(c27, 2 * len(GROW), 6 * len(GROW), "every kind of quantity a project can have many of is multiplied by eight; the CPU time of the same jobs on both is compared (violation only if three times in a row it grew more than twentyfold and 1 s, or more than tenfold and then more than eightfold for another four times as many).",
               {"grown_" + g: 2 for g in GROW}),
}
