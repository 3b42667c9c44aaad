"""Monitors of the text reports, against the Json reports of the same run: C16, C17, C18, C24."""
import os, re, itertools
from util import *
from world import *
import gen
from gen import *
from c_trace import base_args, ASSUME
from c_parse import add_broken


def report_world(r, ctx, dups, **kw):
    w = make_world(r, Opts(noise=r.pick([0.0, 0.05, 0.3]), dups=dups, big=r.p(0.003), wide=r.p(0.003), newlines=False, **kw))
    if r.p(0.004):
        # very many input errors, and one of a kind that comes last
        a = Art("crowd", "Markdown")
        f = "crowd.md"
        n = gen.edge(r, 520)
        w.files[f] = ("".join("# CRW_%d: T\n\n%s\n\n" % (i if r.p(0.9) else 0, r.pick(["Covers:\nfoo bar", "Comment: x\n\nComment: y", "Covers: NO_%d" % i])) for i in range(n))).encode()
        a.paths, a.files, a.found = [f], [f], []
        w.arts.append(a)
        ctx.count("very_many_errors")
    if r.p(0.4):
        want, kinds = add_broken(r, w, r.weighted([(1, 4), (2, 2)]))
    return w


def run_jobs(r, d, w, jobs, ok=(0, 1)):
    root, cwd, args = base_args(r, d)
    w.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    if run.crashed() or run.rc not in ok:
        raise Violation("no reports: " + run.describe())
    return root, cwd, run


def read_text(path, run):
    try:
        with open(path, "rb") as h:
            return h.read().decode("utf-8")
    except (OSError, UnicodeDecodeError) as e:
        raise Violation("no readable report %s (%s)\n%s" % (path, e, run.describe()))


def squash(s):
    """text with white space at line ends removed and runs of blank lines made one"""
    out = []
    for l in s.replace("\r\n", "\n").split("\n"):
        l = l.rstrip()
        if l or (out and out[-1]):
            out.append(l)
    while out and not out[0]:
        out.pop(0)
    while out and not out[-1]:
        out.pop()
    return "\n".join(out)


def flat(s):
    return " ".join(s.split())


def slug(heading):
    """anchor of a heading as GitHub makes it (ASCII)"""
    return re.sub(r"[^a-z0-9 _-]", "", heading.lower()).replace(" ", "-")


def loc_link(loc):
    f = loc["file"]
    lif = loc.get("location_in_file")
    if lif is None:
        return "[%s](../%s)" % (f, f)
    (k, v), = lif.items()
    if k == "Line":
        return "[%s:%d](../%s?plain=1#L%d)" % (f, v, f, v)
    if k == "LineAndColumn":
        return "[%s:%d:%d](../%s?plain=1#L%d)" % (f, v[0], v[1], f, v[0])
    return "[%s](../%s):%s" % (f, f, v)


def head(q):
    return q["id"] + (": " + q["title"] if q["title"] is not None else "")


def md_body(q, refs):
    """description, references, attributes of a requirement as text"""
    a = q["attributes"]
    s = "\n" + a.get("Description", "") + "\n"
    if refs:
        for name, fs in (("Covers", q["covers"]), ("Depends", q["depends"])):
            if fs:
                s += "\n%s:\n" % name
                for f in fs:
                    s += "*   %s\n" % head(f)
    for k in sorted(a, key=lambda x: x.encode()):
        if k != "Description" and a[k].strip():
            s += "\n%s:\n%s\n" % (k, a[k].strip())
    return s


REQLINK = re.compile(r'\[(?P<id>[^\]]*)\]\(#(?P<slug>[^ )"]*)(?: "(?P<title>.*)")?\)')


class Want:
    """an expected entry: a list of texts any of which will do, or a regular expression"""

    def __init__(self, texts=None, regex=None):
        self.texts, self.regex = texts, regex

    def fits(self, s):
        return s in self.texts if self.texts else self.regex.fullmatch(s) is not None

    def __repr__(self):
        return repr(self.texts or self.regex.pattern)

    def key(self):
        return repr(self)


def match_all(what, want, got):
    """a one to one assignment of expected to observed entries, or a violation"""
    left, got = [], list(got)
    have = Counter(got)
    for x in want:
        if x.texts and len(x.texts) == 1:
            if not have[x.texts[0]]:
                raise Violation("%s: no entry %r among %r" % (what, x, got[:12]))
            have[x.texts[0]] -= 1
        else:
            left.append(x)
    rest = list(have.elements())
    owner = [None] * len(rest)
    cand = [[n for n, s in enumerate(rest) if x.fits(s)] for x in left]

    def assign(i, seen):
        for n in cand[i]:
            if n not in seen:
                seen.add(n)
                if owner[n] is None or assign(owner[n], seen):
                    owner[n] = i
                    return True
        return False
    for i, x in enumerate(left):
        if not assign(i, set()):
            raise Violation("%s: no entry %r among %r" % (what, x, rest[:12]))
    extra = [s for n, s in enumerate(rest) if owner[n] is None]
    if extra:
        raise Violation("%s: entries for nothing: %r" % (what, extra[:5]))


def md_error(e):
    """the entry of an error in a Markdown report"""
    (k, v), = e.items()
    if k == "Format":
        s = ["*   Format Error: %s\n    in %s" % (v[1], loc_link(v[0]))]
    elif k == "DuplicateRequirement":
        a, b = loc_link(v[0]["location"]), loc_link(v[1]["location"])
        s = ["*   Duplicate Requirement: %s\n    first seen in %s\n    then again in %s" % ((v[0]["id"],) + x) for x in ((a, b), (b, a))]
    elif k == "DuplicateAttribute":
        s = ["*   Duplicate Attribute: %s when parsing %s\n    %s" % (v[1], v[2], loc_link(v[0]))]
    elif k == "Io":
        s = ["*   IO Error: %s\n   %s" % (v[1], v[0])]
    elif k == "Config":
        s = ["*   Config Error: %s" % v]
    elif k in ("CoveredWithWrongTitle", "DependWithWrongTitle"):
        c = k[0] == "C"
        s = ["*   Requirement %s with wrong title:\n    *   Upper Requirement %s\n    *   Lower Requirement %s\n    *   Title of %s Requirement:\n"
             "        *    ````%s````\n    *   Title used to cover it:\n        *    ````%s````\n    *  At: %s" % (
                 "covered" if c else "depended on", link_md(v["upper"]), link_md(v["lower"]), "Upper" if c else "Lower",
                 v["upper" if c else "lower"]["title"] or "", v["wrong_title"], loc_text(v["location"]))]
    elif k == "DependOnUnknownRequirement":
        s = ["*   %s depends on unknown Requirement %s\n    %s" % (link_md(v[0]), v[1], loc_link(v[2]))]
    elif k == "CoversUnknownRequirement":
        s = ["*   %s covers unknown Requirement %s\n    %s" % (link_md(v[0]), v[1], loc_link(v[2]))]
    elif k == "ReferencedWithoutTitle":
        s = ["*   %s covered without title\n    %s" % (link_md(v["referenced"]), loc_text(v["location"]))]
    elif k == "RequirementWithoutTitle":
        s = ["*   Requirement %s without title in artefact that requires referencing with title" % link_md(v)]
    elif k == "UnusedRelation":
        s = ["*   No requirement was traced along the relation %s => [%s]. (Configuration error?)" % (v["upper"], ", ".join(v["lower"]))]
    else:
        raise Violation("unknown kind of error %r" % k)
    return Want(list(dict.fromkeys(plain_links(flat(x)) for x in s)))


def plain_links(s):
    """links are followed elsewhere; their anchors do not matter when entries are compared"""
    return re.sub(r"\]\(#[^ )]*", "](#", s)


def link_md(q):
    s = slug(head(q))
    if q["title"] is None:
        return "[%s](#%s)" % (q["id"], s)
    return "[%s](#%s \"%s\")" % (q["id"], s, q["title"])


def is_ascii(q):
    return q["id"].isascii() and (q["title"] or "").isascii()


def bullets(lines):
    """top level bullets with their continuation lines"""
    out = []
    for l in lines:
        if not l.strip():
            continue
        if l.startswith("*"):
            out.append([l])
        elif out:
            out[-1].append(l)
        else:
            raise Violation("text outside of the list of errors: %r" % l)
    return [flat("\n".join(b)) for b in out]


def match_errors(what, errors, got, once=False):
    """every error has its bullet, every bullet its error"""
    want = [md_error(e) for e in errors]
    if once:
        want = list({x.key(): x for x in want}.values())
    match_all(what, want, [plain_links(b) for b in got])


def sections(lines, names):
    """splits at top level headings of the given names; {name: lines}"""
    res, cur = {}, None
    for i, l in enumerate(lines):
        if l.startswith("# ") and l[2:] in names and l[2:] not in res:
            cur = l[2:]
            res[cur] = []
            if cur == "Requirements":
                res[cur] = lines[i + 1:]
                return res
        elif cur is not None:
            res[cur].append(l)
        elif l.strip():
            raise Violation("text before the first section: %r" % l)
    return res


def subsections(lines, known):
    """[(name, lines)] at '## name'"""
    out = []
    for l in lines:
        if l.startswith("## "):
            out.append((l[3:], []))
        elif out:
            out[-1][1].append(l)
        elif l.strip():
            raise Violation("text outside of a sub section: %r" % l)
    for n, _ in out:
        if n not in known:
            raise Violation("unknown sub section %r" % n)
    if len({n for n, _ in out}) != len(out):
        raise Violation("repeated sub section %r" % [n for n, _ in out])
    return out


def req_blocks(lines):
    """[(heading, origin, body lines)] of requirements in a report"""
    starts = [i for i in range(len(lines)) if lines[i].startswith("### ") and
              any(lines[j].startswith("Origin: ") for j in range(i + 1, min(i + 4, len(lines))) if all(not x.strip() for x in lines[i + 1:j]))]
    before = lines[:starts[0]] if starts else lines
    out = []
    for n, i in enumerate(starts):
        end = starts[n + 1] if n + 1 < len(starts) else len(lines)
        o = next(j for j in range(i + 1, end) if lines[j].startswith("Origin: "))
        out.append((lines[i][4:], lines[o][8:], lines[o + 1:end]))
    return before, out


def rel_text(x):
    return "%s => [%s]" % (x["upper"], ", ".join(x["lower"]))


def c16(r, d, ctx, k):
    w = report_world(r, ctx, 0.0, ascii_plain=True, link=r.pick([None, 0.3, 0.7]))
    jobs = r.shuffled([TRACE_JSON, TRACE_MD])
    root, cwd, run = run_jobs(r, d, w, jobs)
    t = load_json(os.path.join(root, "out/trace.json"), run)["trace"]
    text = read_text(os.path.join(root, "out/trace.md"), run)
    lines = text.replace("\r\n", "\n").split("\n")
    sec = sections(lines, ["Input Errors", "Tracing Errors", "Uncovered Requirements", "Derived Requirements", "Requirements"])
    arts = t["artefacts"]
    reqs = {}
    for a, o in arts.items():
        for i, q in o["requirements"].items():
            if i in reqs:
                return          # ids collide by chance; not this property
            reqs[i] = (a, q)
    # input errors
    got = dict(subsections(sec.get("Input Errors", []), set(arts)))
    diff_sets("artefacts with input errors", {a for a, o in arts.items() if o["errors"]}, got)
    for a, ls in got.items():
        match_errors("input errors of %s" % a, arts[a]["errors"], bullets(ls))
        ctx.count("input_errors", len(arts[a]["errors"]))
    match_errors("tracing errors", t["errors"], bullets(sec.get("Tracing Errors", [])), once=True)
    ctx.count("tracing_errors", len(t["errors"]))

    def listed(ls, what):
        out = []
        for b in bullets(ls):
            m = REQLINK.fullmatch(b[1:].strip())
            if not m:
                raise Violation("%s: not a link to a requirement: %r" % (what, b))
            out.append(m.group("id"))
        return out
    got = dict(subsections(sec.get("Uncovered Requirements", []), {rel_text(x) for x in t["traced_relations"]}))
    want = {rel_text(x): Counter(x["uncovered"]) for x in t["traced_relations"] if x["uncovered"]}
    diff_eq("uncovered requirements", want, {n: Counter(listed(ls, "uncovered")) for n, ls in got.items()})
    got = dict(subsections(sec.get("Derived Requirements", []), set(arts)))
    want = {a: Counter(x) for a, x in t["derived"].items() if x}
    diff_eq("derived requirements", want, {n: Counter(listed(ls, "derived")) for n, ls in got.items()})
    # requirements
    before, blocks = req_blocks(sec.get("Requirements", []))
    for l in before:
        if l.strip() and not (l.startswith("## ") and l[3:] in arts):
            raise Violation("unexpected line before the first requirement: %r" % l)
    seen = set()
    by_head = {head(q): i for i, (a, q) in reqs.items()}
    for h, origin, body in blocks:
        i = by_head.get(h)
        if i is None:
            raise Violation("heading %r is no requirement of the trace" % h)
        if i in seen:
            raise Violation("requirement %s is listed twice" % i)
        seen.add(i)
        a, q = reqs[i]
        diff_eq("origin of %s" % i, "%s, %s" % (a, loc_link(q["location"])), origin)
        # artefact headings of the following artefacts
        while body and (not body[-1].strip() or (body[-1].startswith("## ") and body[-1][3:] in arts)):
            body = body[:-1]
        try:
            up, down = body.index("Upwards Tracing:"), body.index("Downwards Tracing:")
        except ValueError:
            raise Violation("requirement %s has no tracing" % i)
        diff_eq("text of %s" % i, squash(md_body(q, False)), squash("\n".join(body[:up])))
        tr = {}
        for name, ls in (("up", body[up + 1:down]), ("down", body[down + 1:])):
            rel, ent, mark = None, [], set()
            for l in ls:
                if not l.strip():
                    continue
                s = l.strip()
                if l.startswith("*   "):
                    rel = l[4:]
                    if ("rel", rel) in mark:
                        raise Violation("relation %r listed twice for %s" % (rel, i))
                    mark.add(("rel", rel))
                elif s.startswith("*") and REQLINK.fullmatch(s[1:].strip()):
                    ent.append([rel, REQLINK.fullmatch(s[1:].strip()).group("id"), None])
                elif s.startswith("Reference: ") and ent and ent[-1][2] is None:
                    ent[-1][2] = s[11:]
                elif s.startswith("*") and s[1:].strip() in ("Derived", "UNCOVERED"):
                    mark.add((s[1:].strip(), rel))
                else:
                    raise Violation("unexpected line in the tracing of %s: %r" % (i, l))
            tr[name] = (Counter(map(tuple, ent)), mark)
        want_up, want_down = Counter(), Counter()
        unc, rels_up, rels_down = set(), set(), set()
        for x in t["traced_relations"]:
            rt = rel_text(x)
            for c in x["covered"]:
                if c["lower"] == i:
                    want_up[(rt, c["upper"], loc_link(c["location"]))] += 1
                if c["upper"] == i:
                    want_down[(rt, c["lower"], loc_link(c["location"]))] += 1
            if i in x["uncovered"] and x["upper"] == a:
                unc.add(("UNCOVERED", rt))
        diff_eq("upward tracing of %s" % i, want_up, tr["up"][0])
        diff_eq("downward tracing of %s" % i, want_down, tr["down"][0])
        diff_sets("uncovered marks of %s" % i, unc, {m for m in tr["down"][1] if m[0] == "UNCOVERED"})
        diff_eq("derived mark of %s" % i, not want_up, any(m[0] == "Derived" for m in tr["up"][1]))
        ctx.count("up", sum(want_up.values()))
        ctx.count("down", sum(want_down.values()))
        ctx.count("uncovered_marks", len(unc))
    diff_sets("requirements in the report", reqs, seen)
    # links
    heads = {}
    for h, _, _ in blocks:
        heads.setdefault(slug(h), []).append(by_head[h])
    n = 0
    for l in lines:
        for m in REQLINK.finditer(l):
            i = m.group("id")
            if i not in reqs:
                if l.startswith("    ") or l.startswith("*"):
                    raise Violation("link to a requirement that does not exist: %r" % l)
                continue
            q = reqs[i][1]
            if not is_ascii(q):
                continue
            n += 1
            if i not in heads.get(m.group("slug"), []):
                raise Violation("link %r does not lead to the heading %r" % (m.group(0), "### " + head(q)))
            if m.group("title") is not None:
                diff_eq("title in a link to %s" % i, q["title"], m.group("title"))
    ctx.count("links", n)
    ctx.count("requirements", len(reqs))
    ctx.saw(w.digest(), n > 0)
    if k < 16 and n:
        ctx.sample(text[-900:])


# ---------------------------------------------------------------- C17

def rust_debug(s):
    """debug form of a string, or None where it is not obvious"""
    out = ""
    for c in s:
        if c in "\\\"":
            out += "\\" + c
        elif c in "\n\r\t":
            out += {"\n": "\\n", "\r": "\\r", "\t": "\\t"}[c]
        elif " " <= c <= "~":
            out += c
        else:
            return None
    return '"%s"' % out


def gnu_lines(e):
    """the lines of an error"""
    (k, v), = e.items()

    def dbg(x):
        return re.escape(rust_debug(x)) if rust_debug(x) is not None else '".*"'

    def T(x):
        return Want([x])
    if k == "Format":
        return [T(x) for x in (loc_text(v[0]) + ": " + v[1]).split("\n")]
    if k == "DuplicateRequirement":
        return [T("%s: Duplicate Requirement: %s" % (loc_text(v[1]["location"]), v[0]["id"])), T(loc_text(v[0]["location"]) + ": note: previously seen here")]
    if k == "DuplicateAttribute":
        return [T("%s: %s has duplicate Attribute: %s" % (loc_text(v[0]), v[2], v[1]))]
    if k == "Io":
        return [T(x) for x in (v[0] + ": IO Error: " + v[1]).split("\n")]
    if k == "Config":
        return [Want(regex=re.compile(r"Error in config file: Config\(.*\)"))]
    if k == "UnusedRelation":
        return [Want(regex=re.compile(r"Error in config file: .*%s.*%s.*" % (dbg(v["upper"]), ".*".join(dbg(x) for x in v["lower"]))))]
    if k in ("CoveredWithWrongTitle", "DependWithWrongTitle"):
        q = v["upper" if k[0] == "C" else "lower"]
        return [Want(regex=re.compile("%s %s with wrong title\\. Expected %s, actual %s" % (
                    re.escape(loc_text(v["location"]) + ": " + q["id"]), "covered" if k[0] == "C" else "depended",
                    dbg(q["title"] if q["title"] is not None else "<no title>"), dbg(v["wrong_title"])), re.S)),
                T(loc_text(q["location"]) + ": note: Defined here")]
    if k == "DependOnUnknownRequirement":
        return [T("%s: %s Depends on unknown requirement %s" % (loc_text(v[2]), v[0]["id"], v[1]))]
    if k == "CoversUnknownRequirement":
        return [T("%s: %s Covers unknown requirement %s" % (loc_text(v[2]), v[0]["id"], v[1]))]
    if k == "ReferencedWithoutTitle":
        q = v["referenced"]
        return [Want(regex=re.compile("%s should reference %s with title %s" % (
            re.escape(loc_text(v["location"]) + ":"), re.escape(q["id"]), dbg(q["title"] if q["title"] is not None else "<no title>")), re.S))]
    if k == "RequirementWithoutTitle":
        return [T("%s: requirement %s without title in artefact that requires referencing with title" % (loc_text(v["location"]), v["id"]))]
    raise Violation("unknown kind of error %r" % k)


def c17(r, d, ctx, k):
    w = report_world(r, ctx, r.pick([0.0, 0.0, 0.2]))
    jobs = r.shuffled([TRACE_JSON, TRACE_GNU])
    root, cwd, run = run_jobs(r, d, w, jobs)
    t = load_json(os.path.join(root, "out/trace.json"), run)["trace"]
    text = read_text(os.path.join(root, "out/gnu.txt"), run)
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    names = ["# Parsing Errors", "# Tracing Errors", "# Uncovered Requirement", "Derived Requirement"]
    sec, cur = {}, None
    for l in lines:
        if l in names and l not in sec and names.index(l) == len(sec):
            cur = l
            sec[cur] = []
        elif cur is None:
            raise Violation("line before the first section %r" % l)
        else:
            sec[cur].append(l)
    arts = t["artefacts"]
    perr = [e for o in arts.values() for e in o["errors"]]
    match_all("input errors", [x for e in perr for x in gnu_lines(e)], sec.get(names[0], []))
    match_all("tracing errors", [x for e in t["errors"] for x in gnu_lines(e)], sec.get(names[1], []))
    for e in perr + t["errors"]:
        ctx.count(list(e)[0])

    def sub(ls, known):
        out, c = {}, None
        for l in ls:
            if l.startswith("## ") and l[3:] in known:
                c = l[3:]
                out.setdefault(c, [])
            elif c is None:
                raise Violation("line outside of a sub section %r" % l)
            else:
                out[c].append(l)
        return out
    got = sub(sec.get(names[2], []), {rel_text(x) for x in t["traced_relations"]})
    for x in t["traced_relations"]:
        up = arts[x["upper"]]["requirements"]
        match_all("uncovered along %s" % rel_text(x), [Want(["%s: %s Uncovered" % (loc_text(up[i]["location"]), i)]) for i in x["uncovered"]], got.get(rel_text(x), []))
        ctx.count("uncovered", len(x["uncovered"]))
    got = sub(sec.get(names[3], []), set(arts))
    for a in arts:
        rq = arts[a]["requirements"]
        match_all("derived in %s" % a, [Want(["%s: %s Derived" % (loc_text(rq[i]["location"]), i)]) for i in t["derived"].get(a, [])], got.get(a, []))
        ctx.count("derived", len(t["derived"].get(a, [])))
    ctx.saw(w.digest(), len(lines) > 4)
    if k < 16:
        ctx.sample(text[:900])


# ---------------------------------------------------------------- C18

def c18(r, d, ctx, k):
    w = report_world(r, ctx, r.pick([0.0, 0.0, 0.2]), parsers=[("Markdown", 4), ("Json", 5), ("Rust", 3), ("MonoRequirement", 1)])
    jobs = r.shuffled([TRACE_JSON, TAGS])
    root, cwd, run = run_jobs(r, d, w, jobs)
    t = load_json(os.path.join(root, "out/trace.json"), run)["trace"]
    try:
        data = open(os.path.join(root, "out/tags"), "rb").read()
    except OSError as e:
        raise Violation("no tags: %s" % e)
    if not data.endswith(b"\n"):
        raise Violation("last line of the tags is not complete")
    lines = data.split(b"\n")[:-1]
    if lines != sorted(lines):
        i = next(n for n in range(1, len(lines)) if lines[n] < lines[n - 1])
        raise Violation("tags are not sorted: %r behind %r" % (lines[i], lines[i - 1]))
    head_ = [l for l in lines if l.startswith(b"!_TAG_")]
    if not any(l.startswith(b"!_TAG_FILE_SORTED\t1\t") for l in head_):
        raise Violation("the file does not say that it is sorted")
    want = Counter()
    none = 0
    for a, o in t["artefacts"].items():
        for q in o["requirements"].values():
            lif = q["location"]["location_in_file"]
            if lif and list(lif)[0] in ("Line", "LineAndColumn"):
                (kk, v), = lif.items()
                ctx.count(kk)
                want[(q["id"], q["location"]["file"], str(v if kk == "Line" else v[0]))] += 1
            else:
                none += 1
    got = Counter()
    for l in lines:
        if l.startswith(b"!_TAG_"):
            continue
        f = l.decode("utf-8", "surrogateescape").split("\t")
        if len(f) < 3 or not f[2].endswith(';"') or not f[2][:-2].isdigit():
            raise Violation("not a tag line: %r" % l)
        got[(f[0], f[1], f[2][:-2])] += 1
    if want != got:
        raise Violation("tags: missing %r, unexpected %r" % (list((want - got))[:4], list((got - want))[:4]))
    ctx.count("tags", sum(want.values()))
    ctx.count("without_line", none)
    ids = sorted(x[0] for x in want)
    ctx.count("ids_that_are_prefixes", sum(1 for x, y in zip(ids, ids[1:]) if y.startswith(x)))
    ctx.saw(w.digest(), bool(want))
    if k < 16:
        ctx.sample(data[:700].decode("utf-8", "replace"))


# ---------------------------------------------------------------- C24

def c24(r, d, ctx, k):
    w = report_world(r, ctx, r.pick([0.0, 0.0, 0.2]), parsers=[("Markdown", 5), ("Json", 5), ("Rust", 2), ("MonoRequirement", 1)])
    jobs = r.shuffled([TRACE_JSON, PARSE_MD, PARSE_JSON])
    root, cwd, run = run_jobs(r, d, w, jobs)
    t = load_json(os.path.join(root, "out/trace.json"), run)["trace"]
    text = read_text(os.path.join(root, "out/parse.md"), run)
    arts = t["artefacts"]
    by = {}
    for a in sorted(arts, key=lambda x: x.encode()):
        for i, q in arts[a]["requirements"].items():
            by.setdefault(i, []).append(q)
    blocks = []         # per id: alternatives of the text of all requirements with that id
    for i in sorted(by, key=lambda x: x.encode()):
        one = ["### %s: %s\n\nOrigin: %s\n\n%s" % (q["id"], q["title"] or "", loc_link(q["location"]), md_body(q, True)) for q in by[i]]
        perms = itertools.permutations(one) if len(one) < 6 else [one]
        blocks.append((i, list(dict.fromkeys(squash("\n\n".join(p)) for p in perms))))
    rest = squash(text)
    if any(o["errors"] for o in arts.values()):
        # errors come first; they end where the first requirement starts
        cut = len(rest)
        if blocks:
            c = [rest.find("\n\n" + alt) for alt in blocks[0][1]]
            c = [x for x in c if x >= 0]
            if not c:
                raise Violation("requirement %s is not in the report: %r" % (blocks[0][0], blocks[0][1][0]))
            cut = min(c)
        sec = sections(rest[:cut].split("\n"), ["Input Errors"])
        got = dict(subsections(sec.get("Input Errors", []), set(arts)))
        diff_sets("artefacts with input errors", {a for a, o in arts.items() if o["errors"]}, got)
        for a, ls in got.items():
            match_errors("input errors of %s" % a, arts[a]["errors"], bullets(ls))
            ctx.count("input_errors", len(arts[a]["errors"]))
        rest = rest[cut:].lstrip("\n")
    for i, alts in blocks:
        hit = [x for x in alts if rest == x or rest.startswith(x + "\n")]
        if not hit:
            raise Violation("requirement %s: expected %r, report has %r" % (i, alts[0], rest[:len(alts[0]) + 200]))
        rest = rest[len(hit[0]):].lstrip("\n")
    if rest:
        raise Violation("text that belongs to no requirement: %r" % rest[:500])
    qs = [q for l in by.values() for q in l]
    ctx.count("requirements", len(qs))
    ctx.count("references", sum(len(q["covers"]) + len(q["depends"]) for q in qs))
    ctx.count("attributes", sum(len(q["attributes"]) for q in qs))
    ctx.count("without_title", sum(1 for q in qs if q["title"] is None))
    ctx.count("ids_defined_more_than_once", sum(1 for l in by.values() if len(l) > 1))
    ctx.saw(w.digest(), bool(qs))
    if k < 16:
        ctx.sample(text[:900])


def chk(f, quick, thorough, rule, need, **kw):
    d = {"case": f, "quick": quick, "thorough": thorough, "rule": rule, "need": need,
         "assumptions": ["the Json trace of the same run is right (decided by C01-C06, C10-C15)"]}
    d.update(kw)
    return d


CHECKS = {
    "C16": chk(c16, 14000, 150000, "random projects with and without problems; every statement of the Markdown trace report is read back and compared with the Json "
               "trace of the same run, every link is followed. Non-trivial: has links.", {"links": 1000, "up": 500, "down": 500, "uncovered_marks": 100, "input_errors": 100, "tracing_errors": 100}),
    "C17": chk(c17, 14000, 150000, "random projects with problems of every kind; lines of the report are matched one to one with the problems in the Json trace of the same "
               "run. Non-trivial: at least one problem.",
               {"uncovered": 100, "derived": 100, "Format": 50, "Io": 50, "DuplicateRequirement": 50, "CoveredWithWrongTitle": 50, "DependWithWrongTitle": 50,
                "CoversUnknownRequirement": 50, "DependOnUnknownRequirement": 50, "ReferencedWithoutTitle": 50, "RequirementWithoutTitle": 20, "UnusedRelation": 20}),
    "C18": chk(c18, 14000, 150000, "random projects with all location kinds; tag lines against the Json trace of the same run, and byte order of the whole file. "
               "Non-trivial: at least one tag.", {"tags": 1000, "Line": 100, "LineAndColumn": 100, "without_line": 100, "ids_that_are_prefixes": 20}),
    "C24": chk(c24, 14000, 150000, "random projects; the report's text is matched requirement by requirement with the Json trace of the same run. Non-trivial: at least one "
               "requirement.", {"requirements": 1000, "references": 1000, "attributes": 500, "without_title": 50, "input_errors": 50, "ids_defined_more_than_once": 20}),
}
