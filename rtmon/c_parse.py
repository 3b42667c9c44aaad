"""Monitors of the importers: C10-C15, C23."""
import json, os, copy
from util import *
from world import *
import gen
from gen import *
from c_trace import base_args, ASSUME, count_world, check_relations_listed, dangling


def parsed(r, d, w, jobs=(PARSE_JSON,), fixed=None):
    root, cwd, args = fixed or base_args(r, d)
    w.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("no report: " + run.describe())
    return load_json(os.path.join(root, "out/parse.json"), run), root, cwd, run


def errors_of(report):
    """[(kind, value)]"""
    out = []
    for e in report["errors"]:
        (k, v), = e.items() if isinstance(e, dict) else ((e, None),)
        out.append((k, v))
    return out


def all_found(report):
    """every requirement that was found, further definitions of the same id included"""
    return list(report["requirements"]) + [v[1] for k, v in errors_of(report) if k == "DuplicateRequirement"]


def single(parser, path, data):
    w = World()
    a = Art("a", parser)
    a.paths = [path]
    w.arts = [a]
    w.files[path] = data
    return w


# ---------------------------------------------------------------- C10

def refs(r, n, dup=0.0):
    out = []
    for _ in range(n):
        i = xid(r)
        f = Ref(i, title(r) if r.p(0.4) else None)
        out.append(f)
    return out


def md_refs(r, n):
    """like refs, with ids that are no identifiers, which fit into comma separated lists only"""
    out = refs(r, n)
    if r.p(0.08):
        out = [Ref(odd_id(r)) for _ in range(r.randint(1, 3))] + out
    return out


def md_reqs(r, n, used=None, rich=True, wide=257):
    """wide: most references of a requirement (a trace repeats all of them in each error about the requirement)"""
    out = []
    for i in unique_ids(r, n, used):
        if r.p(0.002):
            if used is not None:
                used.discard(i)
            i += "x" * edge(r, 8193)
            if used is not None:
                used.add(i)
        q = AReq(i, title(r))
        if r.p(0.002):
            q.title = long_line(r)
        if rich and r.p(0.6):
            q.covers = md_refs(r, r.weighted([(1, 3), (2, 2), (5, 1), (20, 0.1), (40, 0.05), (edge(r, wide), 0.02)]))
        if rich and r.p(0.35):
            q.depends = md_refs(r, r.weighted([(1, 3), (2, 2), (5, 1), (20, 0.1), (40, 0.05), (edge(r, wide), 0.02)]))
        out.append(q)
    return out


SOUP = ["", "", " ", "prose text", "Comment: attribute", "Covers:", "Covers: A_1, A_2", "Depends: B_1", "* A_1", "*   A_1: Title",
        "- x", "* not a reference at all", "Covers", "# Heading", "## Sub", "### Deep", "#### Deeper", "#", "##", "#### ", "REQ_1: no heading",
        "    # REQ_9: indented", " ## REQ_9: indented", "> # REQ_9: quoted", "text # REQ_9: inside", "# REQ-9: dash", "# 9REQ: digit",
        "# X: short", "## REQ_9 : space", "## REQ_9. x", "# REQ_9", "#REQ_9", "```", "====", "----", "Word: x", "Two words: x", "\t* A_1", "# (REQ_9): x",
        "## [REQ_9]: x", "## REQ 9: x", "Description: d", "note: x", "…", "# //x.org/a", "ÄB: x", "#\u00a0"]


def c10(r, d, ctx, k):
    path = r.pick(["r.md", "doc/r.md", "x"])
    exp, junk = [], False
    if r.p(0.55):
        # line soup: any lines around requirement headings
        lines = []
        ids = unique_ids(r, r.weighted([(0, 1), (1, 4), (2, 3), (5, 2), (12, 1)]))
        for i in ids:
            for _ in range(r.weighted([(0, 4), (1, 3), (3, 3), (8, 1), (60, 0.1), (edge(r, 513), 0.05)])):
                lines.append(r.pick(SOUP))
            if r.p(0.02):
                lines.append(long_line(r))
            if r.p(0.01):
                lines += [""] * r.pick([10, 100, 300, edge(r, 1025)])
            t = title(r) if not r.p(0.01) else long_line(r)
            sp = r.pick([" ", " ", "", "  ", "\t"])
            lines.append("#" * r.weighted([(1, 3), (2, 3), (3, 3), (6, 1), (7, 1), (20, 0.2)]) + sp + i + ":" + r.pick([" ", " ", "", "  ", "\t"]) + t
                         + r.pick(["", "", "", " ", "   ", "\t"]))
            exp.append((i, t, len(lines)))
        for _ in range(r.weighted([(0, 4), (1, 3), (3, 3), (8, 1)])):
            lines.append(r.pick(SOUP))
        data = "\n".join(lines)
        if r.p(0.75):
            data += "\n"
        if r.p(0.15):
            data = data.replace("\n", "\r\n")
        if ctx.tier == "thorough" and r.p(0.02) or r.p(0.003):
            pad = r.pick([70000, 66000, 9000])
            data = "filler\n" * pad + data
            exp = [(i, t, n + pad) for i, t, n in exp]
            ctx.count("line_numbers_above_65535" if pad > 65535 else "long_files")
        data = data.encode()
        ctx.count("soup")
    else:
        doc = render_md(r, path, md_reqs(r, r.weighted([(1, 2), (3, 3), (8, 2), (30, 0.5), (edge(r, 300), 0.05)]), wide=1025), big=r.p(0.02))
        data = doc.render()
        exp = [(e["id"], e["title"], e["location"]["location_in_file"]["Line"]) for e in doc.exp]
        ctx.count("structured")
    w = single("Markdown", path, data)
    rep, root, cwd, run = parsed(r, d, w)
    f = norm_file(os.path.join(root, path), cwd)
    got = [(q["id"], q["title"], norm_loc(q["location"], cwd)) for q in all_found(rep)]
    bad_lines = [norm_loc(v[0], cwd) for kk, v in errors_of(rep) if kk == "Format"]
    bad_lines = [l[1][1] for l in bad_lines if l[0] == f and l[1] and l[1][0] == "Line"]
    want = Counter((i, t, (f, ("Line", n))) for i, t, n in exp)
    have = Counter(got)
    extra = have - want
    if extra:
        raise Violation("requirements that are not in the file: %r (file has %r)" % (list(extra)[:5], exp[:10]))
    starts = sorted(n for _, _, n in exp) + [10 ** 9]
    for i, t, (_, (_, n)) in want - have:
        end = min(s for s in starts if s > n)
        if any(n < b < end for b in bad_lines):
            ctx.count("malformed_and_reported")
            continue
        raise Violation("requirement %r %r at line %d is lost, no format error between lines %d and %d (errors at %r)" % (i, t, n, n, end, bad_lines))
    ctx.count("headings", len(exp))
    ctx.count("format_errors", len(bad_lines))
    ctx.saw(w.digest(), bool(exp))
    if k < 16 and exp:
        ctx.sample(data[:600].decode("utf-8", "replace"))


# ---------------------------------------------------------------- C11

def md_with_errors(r, path, n, used=None, wide=257):
    """structured file with malformed requirements; returns doc, well (indices of untouched requirements), errs [(kind, line)]"""
    doc = MdDoc(r, path)
    well, errs, skip_attr = [], [], {}
    if r.p(0.003):
        doc.lines += [r.pick(["", "filler"])] * edge(r, 1025 if r.p(0.5) else 66000)
        doc.features.add("long_file")
    if r.p(0.3):
        doc.plain_heading(1)
        doc.filler()
    for q in md_reqs(r, n, used, wide=wide):
        if r.p(0.15):
            doc.plain_heading(doc.end_level())
            if r.p(0.5):
                doc.filler()
        e = doc.requirement(q, r.randint(1, 5) if r.p(0.8) else None)
        idx = len(doc.exp) - 1
        if not r.p(0.35):
            well.append(idx)
            continue
        # make it wrong
        if doc.lines[-1].strip():
            doc.add("")
        kinds = ["prose", "listline", "duplist", "dupattr"]
        k = r.pick(kinds)
        if k == "prose":
            # a list, a blank line, then text that is no attribute; the rest of the requirement is given up
            name = "Covers" if not e["covers"] else "Depends" if not e["depends"] else None
            if name is None:
                well.append(idx)
                continue
            doc.ref_list(e, name.lower(), name, refs(r, r.randint(1, 2)))
            errs.append(("Format", doc.add(r.pick(["this is no attribute", "* A_1: bullet behind a blank line", "note: lower", "X: y"]))))
            for _ in range(r.randint(0, 3)):
                doc.add(r.pick(["more text", "", "* A_2", "x"]))
        elif k == "listline":
            name = "Covers" if not e["covers"] else "Depends" if not e["depends"] else None
            if name is None:
                well.append(idx)
                continue
            doc.add(name + ":")
            for _ in range(r.randint(0, 2)):
                doc.add("*   " + xid(r))
            errs.append(("Format", doc.add(r.pick(["* not a reference", "*   REQ-1", "* A_1 trailing", "prose in the list", "*A_1", "* 1A",
                                                   "Comment: directly behind a list", "* A_1, A_2", "** A_1", "A_1", "* `A_1`"]))))
            for _ in range(r.randint(0, 3)):
                doc.add(r.pick(["more text", "", "* A_2", "x"]))
        elif k == "duplist":
            name = "Covers" if e["covers"] else "Depends" if e["depends"] else None
            if name is None:
                well.append(idx)
                continue
            before = list(e[name.lower()])
            errs.append(("DuplicateAttribute", len(doc.lines) + 1, name, q.id))
            doc.ref_list(e, name.lower(), name, refs(r, r.randint(1, 2)))
            skip_attr[idx] = {name.lower()}
            well.append(idx)
        else:
            names = list(e["attributes"])
            if not names:
                well.append(idx)
                continue
            name = r.pick(names)
            errs.append(("DuplicateAttribute", len(doc.lines) + 1, name, q.id))
            doc.text_attr(e, name)
            skip_attr[idx] = {name}
            well.append(idx)
    if r.p(0.3):
        doc.plain_heading(1)
    return doc, well, errs, skip_attr


def c11(r, d, ctx, k):
    path = r.pick(["r.md", "doc/r.md", "x"])
    n = r.weighted([(1, 3), (2, 3), (4, 3), (10, 1), (edge(r, 300), 0.02)])
    doc, well, errs, skip = md_with_errors(r, path, n, wide=1025)
    data = doc.render()
    w = single("Markdown", path, data)
    rep, root, cwd, run = parsed(r, d, w)
    fix = w.absolute(root)
    got = {q["id"]: q for q in rep["requirements"]}
    for i in well:
        e = fix(doc.exp[i])
        g = got.get(e["id"])
        if g is None:
            raise Violation("requirement %r is missing" % e["id"])
        a, b = norm_req(e, cwd), norm_req(g, cwd)
        sk = skip.get(i, ())
        for name, x, y in zip(("id", "title", "location", "covers", "depends", "tags", "attributes"), a, b):
            if name in sk:
                continue
            if name == "attributes":
                x = tuple(t for t in x if t[0] not in sk)
                y = tuple(t for t in y if t[0] not in sk)
            diff_eq("%s of %s" % (name, e["id"]), x, y)
        ctx.count("covers", len(a[3]))
        ctx.count("depends", len(a[4]))
        ctx.count("attributes", len(a[6]))
    f = norm_file(os.path.join(root, path), cwd)
    seen = Counter()
    for kk, v in errors_of(rep):
        if kk == "Format":
            seen[("Format", norm_loc(v[0], cwd))] += 1
        elif kk == "DuplicateAttribute":
            seen[("DuplicateAttribute", norm_loc(v[0], cwd), v[1], v[2])] += 1
        else:
            seen[(kk, repr(v))] += 1
    want = Counter()
    for x in errs:
        want[(x[0], (f, ("Line", x[1]))) + tuple(x[2:])] += 1
    diff_eq("errors", want, seen)
    for kk in want:
        ctx.count("expected_" + kk[0])
    for ft in doc.features:
        ctx.count("docs_with_" + ft)
    ctx.saw(w.digest(), True)
    if k < 16:
        ctx.sample(data[:900].decode("utf-8", "replace"))


# ---------------------------------------------------------------- C12

def c12(r, d, ctx, k):
    w = World()
    a = Art("code", "Rust")
    w.arts = [a]
    names = names_iter(r)
    files, found, errs, broken = [], [], [], []
    rate = r.pick([0.0, 0.0, 0.1, 0.3])
    for n in range(r.weighted([(1, 6), (2, 2), (4, 1)])):
        path = r.pick(["src/", "src/m/", ""]) + "f%d.rs" % n
        files.append(path)
        if rate and r.p(0.1):
            w.files[path] = broken_rust(r)
            broken.append(path)
            continue
        marks = refs(r, r.weighted([(0, 1), (1, 3), (3, 3), (8, 2), (25, 0.5), (60, 0.1), (edge(r, 513), 0.03)]))
        for f in marks:
            if not is_rust_ident(f.id):
                f.title = None
            elif r.p(0.1) and f.title is None:
                f.id = r.pick(["mod::fn_x", "REQ-1", "A B", "x\"y", "a\\b", "日本"])
        g = render_rust(r, path, marks, names, errors=rate, depth=r.randint(1, 6) if not r.p(0.03) else 9)
        w.files[path] = g.s.text().encode()
        found += list(g.reqs.values())
        errs += [[col_loc(path, l, c) for l, c in sorted(e)] for e in g.errs]
        for ft in g.features:
            ctx.count("files_with_" + ft)
    a.paths = list(files) if r.p(0.5) else ["**/*.rs"]
    rep, root, cwd, run = parsed(r, d, w)
    fix = w.absolute(root)
    key = lambda q: norm_req(q, cwd, ws_id=True)
    # order of references matters inside a requirement, order of requirements does not
    want = Counter(key(fix(q)) for q in found)
    # further requirements with the same path in another file are duplicates, still found
    got = Counter(key(q) for q in all_found(rep))
    if want != got:
        raise Violation("requirements from marks: missing %r, unexpected %r\n%s" % (list((want - got).keys())[:3], list((got - want).keys())[:3], run.describe()))
    fe = Counter()
    for kk, v in errors_of(rep):
        if kk == "Format":
            l = norm_loc(v[0], cwd)
            if l[0] in {norm_file(os.path.join(root, b), cwd) for b in broken}:
                if not (l[1] and l[1][0] == "LineAndColumn" and l[1][1][0] >= 1):
                    raise Violation("error of unparsable file without position: %r" % (l,))
                fe[("broken", l[0])] += 1
            else:
                fe[l] += 1
        elif kk != "DuplicateRequirement":
            raise Violation("unexpected error %r" % kk)
    for b in broken:
        kk = ("broken", norm_file(os.path.join(root, b), cwd))
        if not fe[kk]:
            raise Violation("unparsable file %s is not reported" % b)
        del fe[kk]
    for e in errs:
        places = [norm_loc(fix(l), cwd) for l in e]
        hit = [l for l in places if fe[l] > 0]
        if not hit:
            raise Violation("bad mark at %r is not reported" % (places,))
        fe[hit[0]] -= 1
    if +fe:
        raise Violation("format errors for nothing: %r" % list((+fe).items())[:5])
    ctx.count("marks", sum(len(q["covers"]) for q in found))
    ctx.count("titles", sum(1 for q in found for f in q["covers"] if f["title"] is not None))
    ctx.count("items", len(found))
    ctx.count("bad_marks", len(errs))
    ctx.count("unparsable_files", len(broken))
    ctx.saw(w.digest(), bool(found or errs))
    if k < 16:
        ctx.sample(w.files[files[0]][:900].decode("utf-8", "replace"))


# ---------------------------------------------------------------- C13

def c13(r, d, ctx, k):
    w = World()
    a = Art("mono", "MonoRequirement")
    w.arts = [a]
    stem = r.pick(["README", "Read_Me", "REQ_1", "a b", "ünï", "x.y", "v1.2.3", ".hidden", "read-me", "X", " a", "a ", "x..y", "..a", "a.", "_", "#1", "(x)", "日本", "mod", "index", "100%", "A" * 100])
    ext = r.pick([".md", ".txt", ".rst", ".MD", ".c"]) if not stem == ".hidden" else ""
    if r.p(0.15):
        ext = ""
    path = r.pick(["", "doc/", "a.b/"]) + stem + ext
    q = AReq(stem)
    t = trim_title(title(r))
    if r.p(0.01):
        t = trim_title(long_line(r))
    q.title = t or r.pick(["Title", "T", "_", "0"])
    if r.p(0.06):
        q.title = None
    q.depends = [Ref(f.id, f.title if f.title is None or "=>" not in f.title else None) for f in refs(r, r.weighted([(0, 1), (1, 2), (3, 3), (9, 1), (40, 0.1), (edge(r, 1025), 0.03)]))]
    data, e, feats = render_mono(r, path, q)
    if r.p(0.15):
        data = data.replace(b"\n", b"\r\n")
        ctx.count("crlf")
    # file name without last extension
    name = stem + ext
    want_id = name if name.startswith(".") and name.count(".") == 1 else (name[:name.rindex(".")] if "." in name else name)
    e["id"] = want_id
    a.paths = [path]
    w.files[path] = data
    rep, root, cwd, run = parsed(r, d, w)
    fix = w.absolute(root)
    found = all_found(rep)
    if len(found) != 1:
        raise Violation("%d requirements instead of one: %r" % (len(found), found))
    for n, x, y in zip(("id", "title", "location", "covers", "depends", "tags", "attributes"), norm_req(fix(e), cwd), norm_req(found[0], cwd)):
        diff_eq(n, x, y)
    if rep["errors"]:
        raise Violation("unexpected errors %r" % rep["errors"])
    ctx.count("references", len(e["depends"]))
    ctx.count("references_with_title", sum(1 for f in e["depends"] if f["title"]))
    ctx.count("without_title", e["title"] is None)
    ctx.saw(w.digest(), bool(e["depends"]) or e["title"] is not None)
    if k < 16:
        ctx.sample(path + ": " + data[:500].decode("utf-8", "replace"))


# ---------------------------------------------------------------- C14

def any_text(r):
    k = r.random()
    if k < 0.5:
        return text_line(r)
    out = []
    for _ in range(r.randint(0, 12) if not r.p(0.003) else edge(r, 8193 if not r.p(0.1) else 66000)):
        out.append(r.pick(["a", " ", "\n", "\t", "\r", "\"", "\\", "/", "\u0000", "\u0001", "\u001f", "\u007f", "\u0080", "é", "e\u0301", "\u2028",
                           "\ufeff", "\ufffd", "😀", "\U0010ffff", "日", "<", "&", "'", "{", "}", "[", ",", ":", "\\u0041", "\x1b[0m"]))
    return "".join(out)


def deep_json_req(r, i):
    def ref():
        return {"id": any_text(r) if r.p(0.2) else xid(r), "title": r.pick([None, any_text(r), title(r), ""]), "location": loc()}

    def loc():
        l = json_loc(r, True)
        if r.p(0.3):
            l["file"] = any_text(r).replace("\0", "")
        if l["location_in_file"] and "String" in l["location_in_file"] and r.p(0.5):
            l["location_in_file"]["String"] = any_text(r)
        return l
    return {"id": i, "title": r.pick([None, any_text(r), title(r), ""]), "location": loc(),
            "covers": [ref() for _ in range(r.weighted([(0, 3), (1, 3), (4, 1), (edge(r, 513), 0.005)]))],
            "depends": [ref() for _ in range(r.weighted([(0, 3), (1, 3), (4, 1), (edge(r, 513), 0.005)]))],
            "tags": [any_text(r) for _ in range(r.weighted([(0, 3), (1, 2), (3, 1), (edge(r, 513), 0.005)]))],
            "attributes": {r.pick(ATTRS + JSON_ATTRS + ["Description", any_text(r)]): any_text(r) for _ in range(r.weighted([(0, 3), (1, 2), (3, 1), (edge(r, 513), 0.005)]))}}


def break_json(r, reqs):
    """bytes that are not a list of requirements"""
    reqs = copy.deepcopy(reqs)
    k = r.randrange(16)
    q = r.pick(reqs)
    wrap = r.p(0.5)
    if k == 0:
        del q[r.pick(["id", "location", "covers", "depends", "tags", "attributes"])]
    elif k == 1:
        q["id"] = r.pick([1, None, ["x"], {}])
    elif k == 2:
        q["title"] = r.pick([1, ["x"], {}, True])
    elif k == 3:
        q[r.pick(["covers", "depends"])] = r.pick(["x", {}, ["REQ_1"], [{"id": "A_1"}], None, [None]])
    elif k == 4:
        q["tags"] = r.pick(["x", [1], None, {"a": "b"}])
    elif k == 5:
        q["attributes"] = r.pick([[["a"]], "x", {"a": 1}, {"a": None}])
    elif k == 6:
        q["location"] = r.pick(["a.md:3", None, [], {"location_in_file": None}, {"file": 3, "location_in_file": None}])
    elif k == 7:
        q["location"]["location_in_file"] = r.pick([{"Line": -1}, {"Line": "3"}, {"Line": 1.5}, {"Row": 3}, {"LineAndColumn": [1]}, 7, {"LineAndColumn": 3},
                                                    {"Line": 1, "String": "x"}, {"Line": 2 ** 64}, {"String": 3}])
    elif k in (8, 9):
        return json.dumps({"version": r.pick([1, 2, 99, 2 ** 32 - 1]), "requirements": reqs}).encode()
    elif k == 10:
        return json.dumps(r.pick([{"requirements": reqs}, {"version": 0}, {}, {"version": "0", "requirements": reqs}, {"version": 0, "requirements": {}},
                                  {"version": -1, "requirements": reqs}, {"version": 0, "requirements": None}, "x", 3, None])).encode()
    elif k == 11:
        s = json.dumps(reqs if not wrap else {"version": 0, "requirements": reqs}).encode()
        return s[:r.randint(0, len(s) - 1)]
    elif k == 12:
        return json.dumps(reqs).encode() + r.pick([b"x", b"[]", b"}", b",", b"\n{}"])
    elif k == 13:
        s = json.dumps(reqs)
        return s.replace('"id":', '"id": "DUP_KEY", "id":', 1).encode()
    elif k == 14:
        s = json.dumps(reqs, ensure_ascii=False).encode()
        i = s.index(b'"id": "') + 7
        return s[:i] + r.pick([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\x01"]) + s[i:]
    else:
        return json.dumps(reqs).replace('"id"', r.pick(["id", "'id'"]), 1).encode()
    return json.dumps(reqs if not wrap else {"version": 0, "requirements": reqs}).encode()


def c14(r, d, ctx, k):
    n = r.weighted([(0, 0.5), (1, 3), (3, 3), (10, 2), (60, 0.2), (300, 0.03), (edge(r, 1025), 0.01)])
    ids = []
    used = set()
    while len(ids) < n:
        i = any_text(r) if r.p(0.15) else xid(r)
        if i not in used:
            used.add(i)
            ids.append(i)
    reqs = [deep_json_req(r, i) for i in ids]
    if reqs and r.p(0.25):
        # must be rejected as a whole; an intact second artefact is not affected
        bad = break_json(r, reqs)
        w = single("Json", "bad.json", bad)
        b = Art("b", "Json")
        b.paths = ["good.json"]
        good = [deep_json_req(r, "GOOD_%d" % j) for j in range(r.randint(0, 2))]
        w.files["good.json"] = render_json(r, good)
        w.arts.append(b)
        rep, root, cwd, run = parsed(r, d, w)
        diff_eq("requirements beside a rejected file", sorted(q["id"] for q in good), [q["id"] for q in rep["requirements"]])
        es = errors_of(rep)
        if len(es) != 1 or es[0][0] not in ("Format", "Io"):
            raise Violation("a file that is no list of requirements gave %r\n%s" % (rep["errors"], bad[:800]))
        loc = es[0][1][0]
        f = loc["file"] if isinstance(loc, dict) else loc
        diff_eq("file of the error", norm_file(os.path.join(root, "bad.json"), cwd), norm_file(f, cwd))
        diff_eq("exit status", 1, run.rc)
        ctx.count("rejected")
        ctx.saw(w.digest(), True)
        return
    # split over artefacts, mixed with another format
    w = World()
    parts = r.randint(1, 3)
    cut = sorted(r.randint(0, n) for _ in range(parts - 1))
    for j, (x, y) in enumerate(zip([0] + cut, cut + [n])):
        a = Art("a%d" % j, "Json")
        a.paths = ["f%d.json" % j]
        part = reqs[x:y]
        if r.p(0.1):
            for q in part:
                if q["title"] is None and r.p(0.5):
                    q = dict(q)
        w.files["f%d.json" % j] = render_json(r, r.shuffled(part))
        w.arts.append(a)
    md = None
    if r.p(0.3):
        a = Art("m", "Markdown")
        a.paths = ["m.md"]
        md = render_md(r, "m.md", md_reqs(r, r.randint(1, 3), used))
        w.files["m.md"] = md.render()
        w.arts.append(a)
    jobs = [PARSE_JSON, Job("again", "Parse", "Json", "in/again.json")]
    if r.p(0.03):
        # the same file in two artefacts: everything is there twice
        a = Art("twice", "Json")
        a.paths = list(w.arts[0].paths)
        w.arts.append(a)
        rep, root, cwd, run = parsed(r, d, w, jobs)
        x = cut[0] if cut else n
        diff_eq("ids of a file that is in two artefacts", sorted([i.encode() for i in used] + [i.encode() for i in ids[:x]]), [q["id"].encode() for q in rep["requirements"]])
        ctx.count("in_two_artefacts")
        return
    rep, root, cwd, run = parsed(r, d, w, jobs)
    fix = w.absolute(root)
    if rep["errors"]:
        raise Violation("unexpected errors %r" % rep["errors"])
    diff_eq("exit status", 0, run.rc)
    diff_eq("version", 0, rep["version"])
    got_ids = [q["id"] for q in rep["requirements"]]
    # sorted by id: rust compares the UTF-8 bytes
    diff_eq("order", sorted(got_ids, key=lambda s: s.encode("utf-8")), got_ids)
    got = {q["id"]: q for q in rep["requirements"]}
    diff_sets("ids", used, got_ids)
    if len(got) != len(got_ids):
        raise Violation("requirement exported twice")
    for q in reqs:
        diff_eq("requirement %r" % q["id"], q, got[q["id"]])
    # import the export
    w2 = single("Json", "again.json", open(os.path.join(root, "in/again.json"), "rb").read())
    rep2, _, _, run2 = parsed(r, os.path.join(d, "second"), w2, fixed=(os.path.join(d, "second"),) * 2 + ([],))
    diff_eq("requirements after import of the export", rep["requirements"], rep2["requirements"])
    diff_eq("errors after import of the export", [], rep2["errors"])
    a, b = open(os.path.join(root, "out/parse.json"), "rb").read(), open(os.path.join(d, "second/out/parse.json"), "rb").read()
    diff_eq("bytes after import of the export", a, b)
    ctx.count("requirements", len(reqs))
    ctx.count("references", sum(len(q["covers"]) + len(q["depends"]) for q in reqs))
    ctx.count("round_trips")
    ctx.count("with_markdown", md is not None)
    for q in reqs:
        l = q["location"]["location_in_file"]
        ctx.count("location_%s" % (list(l)[0] if l else None))
    ctx.saw(w.digest(), n > 0)
    if k < 16 and reqs:
        ctx.sample(json.dumps(reqs[0], ensure_ascii=True)[:800])


# ---------------------------------------------------------------- C15

BREAK = ["missing", "directory", "malformed", "encoding", "bad_pattern", "two_paths", "no_paths"]


def add_broken(r, w, n):
    """add n artefacts with something wrong; returns [(artefact, kind or None, file or None)] of the expected problems, and what was made"""
    kinds = Counter()
    used = {q["id"] for a in w.arts for q in a.found}
    want_err = []          # (artefact, kind or None, file rel or None)
    for j in range(n):
        parser = r.pick(["Markdown", "MonoRequirement", "Json", "Rust", "Rust"])
        a = Art(r.pick(["0broken", "zbroken", "mbroken"]) + str(j), parser)
        how = r.pick(BREAK)
        f = "br%d/broken-%d.%s" % (j, j, {"Markdown": "md", "MonoRequirement": "txt", "Json": "json", "Rust": "rs"}[parser])
        a.paths = [f]
        extra = []
        inside = {}
        before = len(want_err)
        if parser == "Rust" and r.p(0.7):
            # intact files beside the broken one, some before and some after it
            names = names_iter(r, "br%d_" % j)
            for q in range(r.randint(1, 3)):
                p2 = "br%d/%s%d.rs" % (j, r.pick(["a", "z"]), q)
                g = render_rust(r, p2, [Ref(f2.id, None) for f2 in refs(r, r.randint(1, 3)) if is_rust_ident(f2.id)], names, errors=r.pick([0.0, 0.0, 0.3]), depth=2,
                                simple=True)
                w.files[p2] = g.s.text().encode()
                extra.append(p2)
                inside[p2] = list(g.reqs.values())
                want_err += [(a.id, "Format", p2)] * len(g.errs)
                kinds["bad_mark_in_broken"] += len(g.errs)
                if r.p(0.2):
                    # the same items in another file: duplicates in addition to what is broken
                    p3 = "br%d/%s%d.rs" % (j, r.pick(["b", "y"]), q)
                    w.files[p3] = w.files[p2]
                    extra.append(p3)
                    inside[p3] = json.loads(json.dumps(inside[p2]).replace(json.dumps(gen.REL + p2), json.dumps(gen.REL + p3)))
                    want_err += [(a.id, "Format", p3)] * len(g.errs) + [(a.id, "DuplicateRequirement", None)] * len(inside[p3])
                    kinds["duplicates_in_broken"] += len(inside[p3])
        if how == "missing":
            want_err.append((a.id, None, f))
        elif how == "directory":
            w.dirs.append(f)
            want_err.append((a.id, None, f))
        elif how == "malformed" and parser == "Markdown":
            doc, well, errs, skip = md_with_errors(r, f, r.weighted([(6, 1), (120, 0.02)]), used)
            # everything but the malformed requirements is imported unchanged
            w.files[f] = doc.render()
            a.partial = [doc.exp[x] for x in well if x not in skip]
            if not errs:
                a.found += doc.exp
                a.partial = []
            for e in errs:
                want_err.append((a.id, e[0], f))
        elif how == "malformed" and parser == "Json":
            w.files[f] = break_json(r, [deep_json_req(r, "BAD_%d" % j)])
            want_err.append((a.id, None, f))
        elif how in ("malformed", "encoding") and parser == "Rust":
            w.files[f] = broken_rust(r) if how == "malformed" else b"fn f() { let s = \"\xff\xfe\"; requirement_covered!(X_1); }\n"
            want_err.append((a.id, None, f))
        elif how == "bad_pattern" and parser == "Rust":
            a.paths = ["br%d/***/x.rs" % j]
            want_err.append((a.id, None, None))
        elif how == "two_paths" and parser != "Rust":
            a.paths = [f, f + "2"]
            want_err.append((a.id, None, None))
        elif how == "no_paths":
            a.paths = []
            extra = []
            del want_err[before:]
            want_err.append((a.id, None, None))
        else:
            want_err.append((a.id, None, f))       # missing as well
        a.paths = r.shuffled(a.paths + extra) if parser == "Rust" and a.paths else a.paths
        got = set()
        for p in a.paths:
            for q in inside.get(p, []):
                if q["id"] not in got:
                    got.add(q["id"])
                    a.found.append(q)
        a.partial = getattr(a, "partial", [])
        kinds["broken_%s_%s" % (parser, how)] += 1
        w.arts.insert(r.randint(0, len(w.arts)), a)
    return want_err, kinds


def c15(r, d, ctx, k):
    """an intact project; some additional artefacts and files are broken"""
    w = make_world(r, Opts(n_reqs=[(1, 2), (3, 3), (6, 1)], big=False))
    intact = list(w.arts)
    own_err = []
    if r.p(0.6):
        # an artefact that takes part in tracing loses a file
        a = r.pick(w.arts)
        if a.files:
            f = r.pick(a.files)
            how = r.pick(["missing", "missing", "malformed"]) if a.parser in ("Json", "Rust") else "missing"
            if how == "missing" and (a.parser != "Rust" or a.paths == a.files or f in a.paths):
                del w.files[f]
                own_err.append((a.id, None, f))
            elif how == "malformed":
                w.files[f] = broken_rust(r) if a.parser == "Rust" else r.pick([b"", b"{", b"[{}]", b"\xff[]"])
                own_err.append((a.id, None, f))
            if own_err:
                lost = gen.REL + f
                a.found = [q for q in a.found if a.parser == "Rust" and q["location"]["file"] != lost]
                ctx.count("traced_artefact_lost_file")
    want_err, kinds = add_broken(r, w, r.weighted([(0, 1), (1, 4), (2, 3), (4, 2)]) if own_err else r.weighted([(1, 4), (2, 3), (4, 2)]))
    want_err += own_err
    for x, v in kinds.items():
        ctx.count(x, v)
    others = 0
    jobs = r.shuffled([TRACE_JSON, PARSE_JSON])
    root, cwd, args = base_args(r, d)
    w.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("run given up: " + run.describe())
    obs = observe_trace(os.path.join(root, "out/trace.json"), run, cwd)
    rep = load_json(os.path.join(root, "out/parse.json"), run)
    fix = w.absolute(root)
    L = lambda loc: norm_loc(loc, cwd)
    # intact artefacts
    w_ok = World()
    w_ok.arts, w_ok.rels = intact, w.rels
    exp = Expect(w_ok, root, cwd)
    for a in intact:
        got = obs.t["artefacts"].get(a.id)
        if got is None:
            raise Violation("artefact %s is missing in the trace" % a.id)
        diff_sets("requirements of intact artefact %s" % a.id, exp.kept[a.id], got["requirements"])
        for i, q in exp.kept[a.id].items():
            diff_eq("requirement %s of intact artefact %s" % (i, a.id), norm_req(fix(q), cwd)[:5], norm_req(got["requirements"][i], cwd)[:5])
    for num, (u, ls) in enumerate(w.rels):
        key = (u, tuple(ls))
        if key not in obs.covered:
            raise Violation("relation %r is missing in the trace" % (key,))
        diff_sets("coverage along %s => %s" % key, exp.covered[num], obs.covered[key])
        diff_sets("uncovered along %s => %s" % key, exp.uncovered[num], obs.uncovered[key])
    for a in intact:
        diff_sets("derived of intact artefact %s" % a.id, exp.derived[a.id], obs.derived.get(a.id, []))
    for kind, bad in (("CoversUnknownRequirement", exp.bad_covers), ("DependOnUnknownRequirement", exp.bad_depends)):
        diff_sets(kind + " in intact artefacts", bad, {x for x in dangling(obs, kind, cwd) if x[0] in exp.owner})
    # intact parts of broken artefacts
    for a in w.arts:
        if a in intact:
            continue
        got = obs.t["artefacts"].get(a.id)
        if got is None:
            raise Violation("artefact %s is missing in the trace" % a.id)
        for q in a.found + a.partial:
            g = got["requirements"].get(q["id"])
            if g is None:
                raise Violation("requirement %s of intact part of artefact %s is missing" % (q["id"], a.id))
            diff_eq("requirement %s of intact part of %s" % (q["id"], a.id), norm_req(fix(q), cwd)[:5], norm_req(g, cwd)[:5])
            others += 1
    # every problem is reported, in both reports
    def seen(errs):
        c = Counter()
        for e in errs:
            (kk, v), = e.items()
            f = None
            if kk in ("Format", "DuplicateAttribute"):
                f = norm_file(v[0]["file"], cwd)
            elif kk == "Io":
                f = norm_file(v[0], cwd)
            c[(kk, f)] += 1
        return c
    for a in w.arts:
        c = seen(obs.t["artefacts"][a.id]["errors"])
        for i, kk, f in want_err:
            if i != a.id:
                continue
            ff = None if f is None else norm_file(os.path.join(root, f), cwd)
            hits = [x for x in c if (kk is None or x[0] == kk) and (ff is None or x[1] == ff) and c[x] > 0]
            if not hits:
                raise Violation("problem of artefact %s (%s in %s) is not reported, only %r" % (i, kk, f, dict(c)))
            c[hits[0]] -= 1
    all_trace = Counter(json.dumps(e, sort_keys=True) for o in obs.t["artefacts"].values() for e in o["errors"])
    all_parse = Counter(json.dumps(e, sort_keys=True) for e in rep["errors"])
    diff_eq("input errors in both reports", all_trace, all_parse)
    if want_err:
        diff_eq("exit status", 1, run.rc)
    ctx.count("problems", len(want_err))
    ctx.count("requirements_beside_problems", others + sum(len(x) for x in exp.kept.values()))
    ctx.count("intact_coverages", sum(len(x) for x in exp.covered))
    ctx.saw(w.digest(), bool(want_err))
    if k < 16:
        ctx.sample("expected problems %r in a project of %d artefacts" % (want_err, len(w.arts)))


# ---------------------------------------------------------------- C23

def crlf(b):
    return b.replace(b"\n", b"\r\n")


def c23(r, d, ctx, k):
    """the same project with other line ends, or with damaged bytes"""
    mode = r.pick(["crlf", "final", "blank", "damage"])
    if r.p(0.35):
        # malformed Markdown as well
        w = World()
        a = Art("m", "Markdown")
        a.paths = ["m.md"]
        doc, well, errs, skip = md_with_errors(r, "m.md", r.randint(1, 6))
        w.files["m.md"] = doc.render(final_newline=True)
        w.arts = [a]
        ctx.count("malformed_files")
    else:
        w = make_world(r, Opts(parsers=[("Markdown", 6), ("Rust", 2), ("MonoRequirement", 2)]))
    kind = {}
    for a in w.arts:
        for f in (a.files or a.paths):
            if f in w.files:
                kind[f] = a.parser
    w1, w2 = w, copy.copy(w)
    w1.files, w2.files = dict(w.files), dict(w.files)
    marker = None
    changed = 0
    for f, p in sorted(kind.items()):
        b = w.files[f]
        if mode == "crlf":
            if p == "Rust" and b"\\\n" in b:
                continue
            w1.files[f] = b.replace(b"\r\n", b"\n")
            w2.files[f] = crlf(w1.files[f])
        elif mode == "final":
            core = b.rstrip(b"\n")
            # blank lines at the end carry no meaning either
            w1.files[f] = core
            w2.files[f] = core + r.pick([b"\n", b"\n\n", b"\r\n", b"\n\n\n"])
        elif mode == "blank" and p != "Rust":
            w2.files[f] = b"\n".join((r.pick([b" ", b"\t", b"  \t", b"\r"]) if l == b"" and r.p(0.6) else l) for l in b.split(b"\n"))
        elif mode == "damage" and p != "Rust":
            # a place inside prose: damaged bytes against the replacement character
            lines = b.split(b"\n")
            bad = r.pick([b"\xff", b"\xc3", b"\xfe", b"\x80"])      # one replacement character each
            cand = [i for i, l in enumerate(lines) if l.strip() and len(l) > 2]
            if cand:
                for i in r.some(cand, 0.3) or [r.pick(cand)]:
                    l = lines[i].decode()
                    pos = r.randint(0, len(l))
                    x = (l[:pos], l[pos:])
                    lines[i] = (x[0].encode() + b"\0BAD\0" + x[1].encode())
                b1 = b"\n".join(lines)
                fffd = bad.decode("utf-8", "replace").encode()
                # how many replacement characters stand for one sequence is not prescribed
                w1.files[f] = b1.replace(b"\0BAD\0", "\ufffd".encode())
                w2.files[f] = b1.replace(b"\0BAD\0", bad)
        if w1.files[f] != w2.files[f]:
            changed += 1
    jobs = [PARSE_JSON, TRACE_JSON]
    res = []
    for n, x in (("a", w1), ("b", w2)):
        root = os.path.join(d, n, "w")
        x.write(root, jobs)
        run = run_cli([j.name for j in jobs], root)
        if run.crashed() or run.rc not in (0, 1):
            raise Violation("no report: " + run.describe())
        res.append((load_json(os.path.join(root, "out/parse.json"), run), load_json(os.path.join(root, "out/trace.json"), run), run.rc))

    def squeeze(s):
        # runs of replacement characters count as one
        while "\ufffd\ufffd" in s:
            s = s.replace("\ufffd\ufffd", "\ufffd")
        return s

    def canon(o, key=None):
        if isinstance(o, dict):
            return {squeeze(kk): (norm_text(squeeze(v)) if key == "attributes" else canon(v, kk)) for kk, v in o.items()}
        if isinstance(o, list):
            return [canon(v) for v in o]
        if isinstance(o, str):
            return squeeze(o)
        return o

    def drop_messages(o):
        if isinstance(o, dict):
            if "Format" in o and isinstance(o["Format"], list) and mode != "damage":
                return {"Format": o["Format"][0]}
            return {kk: drop_messages(v) for kk, v in o.items()}
        if isinstance(o, list):
            return [drop_messages(v) for v in o]
        return o
    (p1, t1, rc1), (p2, t2, rc2) = res
    for what, x, y in (("requirements", p1["requirements"], p2["requirements"]),
                       ("input errors", sorted(map(repr, drop_messages(canon(p1["errors"])))), sorted(map(repr, drop_messages(canon(p2["errors"]))))),
                       ("relations", t1["trace"]["traced_relations"], t2["trace"]["traced_relations"]),
                       ("derived", t1["trace"]["derived"], t2["trace"]["derived"]),
                       ("tracing errors", t1["trace"]["errors"], t2["trace"]["errors"])):
        x, y = canon(x), canon(y)
        if x != y:
            if isinstance(x, list) and isinstance(y, list):
                dx = [i for i in x if i not in y][:3]
                dy = [i for i in y if i not in x][:3]
                if not dx and not dy and len(x) == len(y):
                    continue        # order
                raise Violation("%s differ after transformation %r: %r against %r" % (what, mode, dx, dy))
            raise Violation("%s differ after transformation %r" % (what, mode))
    diff_eq("exit status after transformation %r" % mode, rc1, rc2)
    ctx.count("mode_" + mode)
    ctx.count("files_changed", changed)
    ctx.count("requirements", len(p1["requirements"]))
    ctx.count("errors", len(p1["errors"]))
    ctx.saw(w2.digest(), changed > 0 and bool(p1["requirements"]))
    if k < 16:
        ctx.sample("%s on %r" % (mode, sorted(kind)))


def chk(f, quick, thorough, rule, need, **kw):
    d = {"case": f, "quick": quick, "thorough": thorough, "rule": rule, "need": need, "assumptions": ASSUME}
    d.update(kw)
    return d


CHECKS = {
    "C10": chk(c10, 20000, 150000, "Markdown files, half of them arbitrary lines around requirement headings, half structured documents; the tool's requirement list "
               "(id, title, line) against the headings that were written. Non-trivial: at least one heading.", {"headings": 1000, "soup": 100, "structured": 100, "format_errors": 100}),
    "C11": chk(c11, 20000, 150000, "structured Markdown documents with descriptions, lists, attributes, sub headings and planted mistakes; all imported content and all "
               "errors against what was written.", {"covers": 1000, "depends": 500, "attributes": 500, "expected_Format": 50, "expected_DuplicateAttribute": 50,
                                                     "docs_with_subheading": 20, "docs_with_mid_paragraph_attribute": 20}),
    "C12": chk(c12, 20000, 150000, "generated Rust files (nested items, blocks, closures, comments, decoys, bad marks, unparsable files); imported requirements and errors "
               "against the marks that were written, with positions. Non-trivial: at least one mark.", {"marks": 1000, "titles": 200, "bad_marks": 50, "unparsable_files": 10}),
    "C13": chk(c13, 20000, 150000, "generated single-requirement files with all kinds of names, decorations and arrows. Non-trivial: has title or references.",
               {"references": 500, "references_with_title": 100, "without_title": 20}),
    "C14": chk(c14, 15000, 100000, "Json artefacts with arbitrary unicode text and all location kinds, exported, compared field by field, imported again and compared byte by "
               "byte; and damaged files that must be rejected. Non-trivial: at least one requirement.",
               {"round_trips": 500, "rejected": 100, "location_Line": 50, "location_LineAndColumn": 50, "location_String": 50, "location_None": 50}),
    "C15": chk(c15, 12000, 100000, "projects with 1-4 additional broken artefacts (missing, directory, malformed, not decodable, bad pattern, wrong number of paths); results of "
               "the intact rest against the reference model, and all problems reported. Non-trivial: at least one problem.", {"problems": 500, "requirements_beside_problems": 1000}),
    "C23": chk(c23, 10000, 80000, "pairs of projects that differ only in line ends, final newline, white space in blank lines or damaged bytes; all results compared. "
               "Non-trivial: a file differs and there are requirements.", {"mode_crlf": 100, "mode_final": 100, "mode_blank": 100, "mode_damage": 100, "files_changed": 100}),
}
