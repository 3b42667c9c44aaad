"""Projects (artefacts, relations, jobs), their rendering to disk, and the reference model of tracing."""
import json, os
from collections import Counter
from gen import *
from gen import REL
import gen
from util import norm_loc, norm_file, norm_text, Violation, Inconclusive, run_cli, Rng


class Art:
    def __init__(self, id, parser):
        self.id, self.parser = id, parser
        self.paths = []             # as configured
        self.ignore = None          # explicit settings or None
        self.with_title = None
        self.found = []             # expected requirements in the order they are read (with duplicates)
        self.errors = []            # expected input errors: (kind, ...) tuples, see below
        self.files = []             # files (relative) it consists of
        self.marks = None           # abstract marks of Rust artefacts
        self.abstract = []          # abstract requirements
        self.bad_files = []         # files that are broken on purpose

    def kept(self):
        """requirements by id, the first definition wins"""
        d = {}
        for q in self.found:
            d.setdefault(q["id"], q)
        return d


def toml_str(s):
    return json.dumps(s, ensure_ascii=False).replace("\x7f", "\\u007f")


class Job:
    def __init__(self, name, query, format, file, rc=None):
        self.name, self.query, self.format, self.file, self.rc = name, query, format, file, rc

    def toml(self):
        s = "[jobs.%s]\nquery = %s\nformat = %s\nfile = %s\n" % (
            toml_str(self.name), toml_str(self.query),
            self.format if self.format.startswith("{") else toml_str(self.format), toml_str(self.file))
        if self.rc is not None:
            s += "set_return_code = %s\n" % ("true" if self.rc else "false")
        return s


TRACE_JSON = Job("trace_json", "Trace", "Json", "out/trace.json")
PARSE_JSON = Job("parse_json", "Parse", "Json", "out/parse.json")
TRACE_MD = Job("trace_md", "Trace", "Markdown", "out/trace.md")
PARSE_MD = Job("parse_md", "Parse", "Markdown", "out/parse.md")
TRACE_GNU = Job("trace_gnu", "Trace", "GnuError", "out/gnu.txt")
TAGS = Job("tags", "Parse", "Tags", "out/tags")


class World:
    def __init__(self):
        self.arts, self.rels, self.files = [], [], {}
        self.dirs = []            # directories to create (without files)
        self.features = Counter()

    # ------------------------------------------------------------ rendering
    def config(self, jobs, default=None, version=None, art_order=None, rel_order=None, extra=""):
        s = ""
        if version is not None:
            s += "version = %d\n" % version
        if default is not None:
            s += "default_jobs = [%s]\n" % ", ".join(toml_str(x) for x in default)
        if not self.arts:
            s += "artefacts = []\n"
        if not self.rels:
            s += "relations = []\n"
        s += extra
        for a in (art_order or self.arts):
            s += "\n[[artefacts]]\nid = %s\npaths = [%s]\nparser = %s\n" % (
                toml_str(a.id), ", ".join(toml_str(x) for x in a.paths), toml_str(a.parser))
            if a.ignore is not None:
                s += "ignore_derived_requirements = %s\n" % ("true" if a.ignore else "false")
            if a.with_title is not None:
                s += "reference_with_title = %s\n" % ("true" if a.with_title else "false")
        for u, ls in (rel_order if rel_order is not None else self.rels):
            s += "\n[[relations]]\nupper = %s\nlower = [%s]\n" % (toml_str(u), ", ".join(toml_str(x) for x in ls))
        for j in jobs:
            s += "\n" + j.toml()
        return s

    def write(self, root, jobs, **kw):
        os.makedirs(root, exist_ok=True)
        for d in self.dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f, data in self.files.items():
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(data)
        with open(os.path.join(root, "requirements.toml"), "w", encoding="utf-8") as h:
            h.write(self.config(jobs, **kw))

    def digest(self):
        import hashlib
        h = hashlib.sha1()
        for a in self.arts:
            h.update(repr((a.id, a.parser, a.paths, a.ignore, a.with_title)).encode())
        h.update(repr(self.rels).encode())
        for f in sorted(self.files):
            h.update(f.encode("utf-8", "replace") + b"\0" + self.files[f])
        return h.hexdigest()[:16]

    # ------------------------------------------------------------ expectation
    def absolute(self, root):
        """replace the REL marks in expected locations by the base directory"""
        def fix(o):
            if isinstance(o, dict):
                return {k: fix(v) for k, v in o.items()}
            if isinstance(o, list):
                return [fix(v) for v in o]
            if isinstance(o, str) and o.startswith(REL):
                return os.path.join(root, o[len(REL):])
            return o
        return fix

    def art(self, id):
        for a in self.arts:
            if a.id == id:
                return a
        raise KeyError(id)


class Expect:
    """reference model: what tracing has to find in a world (locations normalised)"""

    def __init__(self, w, root, cwd=None):
        cwd = cwd or root
        fix = w.absolute(root)
        self.root, self.cwd = root, cwd
        L = lambda loc: norm_loc(fix(loc), cwd)
        self.L = L
        arts = sorted(w.arts, key=lambda a: a.id.encode())
        self.kept = {a.id: a.kept() for a in arts}
        lowers = {l for _, ls in w.rels for l in ls}
        self.ignore = {a.id: (a.ignore if a.ignore is not None else a.id not in lowers) for a in arts}
        self.with_title = {a.id: bool(a.with_title) for a in arts}
        # the artefact that owns an id
        owner = {}
        self.dup_across = []        # (id, owner artefact, other artefact)
        for a in arts:
            for i in self.kept[a.id]:
                if i in owner:
                    self.dup_across.append((i, owner[i], a.id))
                else:
                    owner[i] = a.id
        self.owner = owner
        self.dup_within = []        # (artefact, first, further)
        for a in arts:
            first = {}
            for q in a.found:
                if q["id"] in first:
                    self.dup_within.append((a.id, first[q["id"]], q))
                else:
                    first[q["id"]] = q
        own = {a.id: {i: q for i, q in self.kept[a.id].items() if owner[i] == a.id} for a in arts}
        self.covered, self.uncovered, self.unused = [], [], []
        self.times_covered = []     # the same with the number of references that claim it
        self.wrong_cover, self.wrong_depend, self.no_title = set(), set(), set()
        ok_covers, ok_depends = set(), set()
        covers_something = set()
        for u, ls in w.rels:
            cov, unc = Counter(), set()
            hit = set()
            by_target = {}
            for l in ls:
                for q in own[l].values():
                    for f in q["covers"]:
                        by_target.setdefault(f["id"], []).append((l, q, f))
            for uid, uq in self.kept[u].items():
                for f in uq["depends"]:
                    for l in ls:
                        lq = own[l].get(f["id"])
                        if lq is None:
                            continue
                        hit.add(uid)
                        cov[(uid, lq["id"], "Downwards", L(f["location"]))] += 1
                        ok_depends.add((uid, lq["id"]))
                        covers_something.add(lq["id"])
                        if f["title"] is not None:
                            if f["title"] != lq["title"]:
                                self.wrong_depend.add((uid, lq["id"], f["title"], L(f["location"])))
                        elif self.with_title[l]:
                            self.no_title.add((lq["id"], L(f["location"])))
                for l, lq, f in by_target.get(uid, ()):
                    hit.add(uid)
                    cov[(uid, lq["id"], "Upwards", L(f["location"]))] += 1
                    ok_covers.add((uid, lq["id"]))
                    covers_something.add(lq["id"])
                    if f["title"] is not None:
                        if f["title"] != uq["title"]:
                            self.wrong_cover.add((uid, lq["id"], f["title"], L(f["location"])))
                    elif self.with_title[u]:
                        self.no_title.add((uid, L(f["location"])))
            for uid in self.kept[u]:
                if uid not in hit:
                    unc.add(uid)
            if not cov:
                self.unused.append((u, tuple(ls)))
            self.covered.append(set(cov))
            self.times_covered.append(cov)
            self.uncovered.append(unc)
        self.derived = {a.id: set() if self.ignore[a.id] else {i for i in own[a.id] if i not in covers_something}
                        for a in arts}
        self.bad_covers, self.bad_depends = {}, {}      # (claimant, target) -> possible locations
        for a in arts:
            for q in own[a.id].values():
                for f in q["covers"]:
                    if (f["id"], q["id"]) not in ok_covers:
                        self.bad_covers.setdefault((q["id"], f["id"]), set()).add(L(f["location"]))
                for f in q["depends"]:
                    if (q["id"], f["id"]) not in ok_depends:
                        self.bad_depends.setdefault((q["id"], f["id"]), set()).add(L(f["location"]))
        self.untitled = {a.id: {i for i, q in self.kept[a.id].items() if q["title"] is None} if self.with_title[a.id] else set()
                         for a in arts}
        self.input_error = (bool(self.dup_within) or any(self.untitled.values()) or any(a.errors for a in arts))
        self.trace_error = bool(self.dup_across or self.unused or self.wrong_cover or self.wrong_depend or self.no_title
                                or self.bad_covers or self.bad_depends)
        self.any_uncovered = any(self.uncovered)
        self.any_derived = any(self.derived.values())

    def status(self, job):
        """does the job find problems"""
        if job.query == "Parse":
            return self.input_error
        return self.input_error or self.trace_error or self.any_uncovered or self.any_derived


def norm_req(q, cwd, ws_id=False):
    """comparable form of a requirement object"""
    i = lambda s: "".join(s.split()) if ws_id else s
    return (i(q["id"]), q["title"], norm_loc(q["location"], cwd),
            tuple((f["id"], f["title"], norm_loc(f["location"], cwd)) for f in q["covers"]),
            tuple((f["id"], f["title"], norm_loc(f["location"], cwd)) for f in q["depends"]),
            tuple(q["tags"]), tuple(sorted((k, norm_text(v)) for k, v in q["attributes"].items())))


class Observed:
    """the reported trace, in the form of Expect"""

    def __init__(self, trace, cwd):
        t = trace["trace"]
        self.t, self.cwd = t, cwd
        L = lambda loc: norm_loc(loc, cwd)
        self.rels = [(x["upper"], tuple(x["lower"])) for x in t["traced_relations"]]
        self.covered = {}
        self.uncovered = {}
        self.n_covered = 0
        self.times_covered = {}
        for x in t["traced_relations"]:
            k = (x["upper"], tuple(x["lower"]))
            self.covered.setdefault(k, set()).update((c["upper"], c["lower"], c["direction"], L(c["location"])) for c in x["covered"])
            self.n_covered += len(x["covered"])
            self.times_covered.setdefault(k, Counter()).update((c["upper"], c["lower"], c["direction"], L(c["location"])) for c in x["covered"])
            u = self.uncovered.setdefault(k, [])
            u.extend(x["uncovered"])
        self.derived = t["derived"]
        self.kinds = {}
        for e in t["errors"]:
            (k, v), = e.items() if isinstance(e, dict) else ((e, None),)
            self.kinds.setdefault(k, []).append(v)
        self.art_kinds = {}
        for a, o in t["artefacts"].items():
            d = self.art_kinds[a] = {}
            for e in o["errors"]:
                (k, v), = e.items() if isinstance(e, dict) else ((e, None),)
                d.setdefault(k, []).append(v)


def load_json(path, run):
    try:
        with open(path, encoding="utf-8") as h:
            return json.load(h)
    except (OSError, ValueError) as e:
        raise Violation("no complete report %s (%s)\n%s" % (path, e, run.describe()))


def observe_trace(path, run, cwd):
    return Observed(load_json(path, run), cwd)


# ---------------------------------------------------------------- project generator

ART_IDS = ["requirements", "design", "code", "formats", "Upper", "Lower", "a", "b", "A", "Z", "z_9", "über", "日本", "art 1",
           "tests", "readme", "x.y", "arch-1", "10", "9", "req", "reqs"]


class Opts:
    """knobs of the project generator"""

    def __init__(self, **kw):
        self.parsers = [("Markdown", 5), ("Json", 3), ("Rust", 2), ("MonoRequirement", 1)]
        self.n_arts = [(1, 0.5), (2, 3), (3, 4), (4, 3), (5, 2), (7, 1), (13, 0.15)]
        self.n_reqs = [(0, 0.5), (1, 1.5), (2, 2), (4, 3), (8, 2), (20, 0.7), (60, 0.05)]
        self.link = None            # probability of a link for each pair along a relation; None = varied
        self.noise = None           # rate of references that lead nowhere; None = varied
        self.wrong_title = None     # rate of wrong titles
        self.dups = 0.0             # rate of further definitions
        self.ascii_plain = False    # for reports that are parsed as text
        self.titles = True
        self.clean = False          # no problems of any kind
        self.big = False
        self.empty_id = False       # an empty id in a Json artefact
        self.wide = False           # a requirement with hundreds of references, and many artefacts
        self.newlines = True        # line breaks in ids
        self.__dict__.update(kw)


def make_world(r, o=None):
    o = o or Opts()
    w = World()
    n = r.weighted(o.n_arts)
    names = ART_IDS if not o.ascii_plain else [i for i in ART_IDS if i.isascii()]
    if o.wide and r.p(0.3):
        n = edge(r, 65)
        names = names + ["art%d" % x for x in range(n)]
    ids = r.shuffled(names)[:n]
    used = set()
    # ranks make the relation graph acyclic
    for k, i in enumerate(ids):
        p = r.weighted(o.parsers)
        a = Art(i, p)
        a.rank = k
        w.arts.append(a)
    rank = {a.id: a.rank for a in w.arts}
    # relations: upper has a lower rank number than all of its lower artefacts
    seen = set()
    if n > 1:
        for _ in range(r.randint(0 if not o.clean else 1, n + 2) if r.p(0.3) else r.randint(1, n + 1)):
            u = r.pick(w.arts[:-1])
            below = [a for a in w.arts if a.rank > u.rank and a.parser != "MonoRequirement"] if r.p(0.9) else \
                [a for a in w.arts if a.rank > u.rank]
            if not below:
                continue
            if u.parser == "Rust" and r.p(0.7):
                continue
            ls = [r.pick(below).id]
            if r.p(0.35):
                ls += [a.id for a in r.some(below, 0.5) if a.id not in ls]
            r.shuffle(ls)
            k = (u.id, tuple(sorted(ls)))
            if k in seen:
                continue
            seen.add(k)
            w.rels.append((u.id, ls))
    if r.p(0.01) and not o.clean:
        w.rels.append((r.pick(w.arts).id, []))
    # abstract requirements
    for a in w.arts:
        if a.parser == "MonoRequirement":
            base = unique_ids(r, 1, used)[0]
            q = AReq(base)
            t = trim_title(title(r, o.ascii_plain))
            q.title = t or None
            if r.p(0.05):
                q.title = None
            a.abstract = [q]
        elif a.parser == "Rust":
            a.abstract = []
            k = r.weighted(o.n_reqs)
            for _ in range(k):
                a.abstract.append(AReq(None))
        else:
            k = r.weighted(o.n_reqs)
            if o.big and r.p(0.4):
                k = r.pick([100, 300, edge(r, 1025, 99)])
            for i in unique_ids(r, k, used):
                if a.parser == "Json" and not o.ascii_plain and r.p(0.05):
                    x = odd_id(r) if not o.empty_id or r.p(0.9) else ""
                    if x not in used:
                        used.add(x)
                        i = x
                q = AReq(i)
                q.title = title(r, o.ascii_plain)
                if r.p(0.02) and i and i == i.strip() and "\n" not in i and "\r" not in i and "\0" not in i:
                    # a title that repeats the id
                    q.title = r.pick([i, i + ": x", i + " again", "the " + i, i + "x"])
                if a.parser == "Json":
                    if r.p(0.15):
                        q.title = None
                    elif r.p(0.05) and not o.ascii_plain:
                        q.title = r.pick(["", " padded ", "line\nbreak"])
                    if r.p(0.2):
                        q.tags = [xid(r) for _ in range(r.randint(1, 3))]
                    if r.p(0.4):
                        q.attrs = {x: (plain_words(r) if o.ascii_plain else text_line(r)) for x in r.some(ATTRS, 0.2)}
                        if r.p(0.5):
                            q.attrs["Description"] = plain_words(r)
                        if r.p(0.3) and not o.ascii_plain:
                            q.attrs.update((x, text_line(r)) for x in r.some(JSON_ATTRS, 0.2))
                a.abstract.append(q)
    # explicit settings
    for a in w.arts:
        if r.p(0.35):
            a.ignore = r.p(0.5)
        if r.p(0.3):
            a.with_title = r.p(0.5)
    # Rust requirements get their ids when rendered, which is done before anybody refers to them
    link_p = o.link if o.link is not None else r.pick([0.0, 0.1, 0.3, 0.6, 0.95])
    noise = o.noise if o.noise is not None else r.pick([0.0, 0.0, 0.05, 0.3])
    wrong = 0.02 if o.wide else o.wrong_title if o.wrong_title is not None else 0.02 if o.big else r.pick([0.0, 0.0, 0.1, 0.5])
    by = {a.id: a for a in w.arts}
    all_ids = [q.id for a in w.arts for q in a.abstract if q.id]

    def ref_title(target, fmt, demand, owner_parser):
        """title for a reference to an abstract requirement, or None"""
        if fmt == "none":
            return None
        if target.title is None:
            return r.pick([None, None, "Title"] + ([""] if fmt == "json" else [])) if r.p(wrong) else None
        if r.p(wrong):
            t = target.title + "x" if o.ascii_plain else title_near_space(r, target.title) if fmt == "json" and r.p(0.3) else title_near(r, target.title)
        elif demand and not r.p(wrong) or r.p(0.5):
            t = target.title
        else:
            return None
        if fmt != "json" and (not t or t != t.strip() or "\n" in t):
            return None
        return t

    def noise_refs(a):
        for q in a.abstract:
            while r.p(noise):
                i = r.weighted([("near", 3), ("any", 3), ("new", 2), ("self", 0.7)])
                if i == "near" and all_ids:
                    t = id_near(r, r.pick(all_ids))
                elif i == "any" and all_ids:
                    t = r.pick(all_ids)
                elif i == "self" and q.id:
                    t = q.id
                else:
                    t = xid(r)
                if not is_md_id(t) and (a.parser == "MonoRequirement" or r.p(0.5)):
                    t = "REQ_nowhere"
                if a.parser == "Json" and r.p(0.1) and not o.ascii_plain:
                    t = r.pick([t + " ", " " + t, t + ("\n" if o.newlines else "\t"), t + "\u200b", t + ","])
                f = Ref(t, None if r.p(0.6) or not is_md_id(t) else (title(r, o.ascii_plain)))
                if a.parser == "Rust" and not is_rust_ident(t):
                    f.title = None
                if a.parser == "MonoRequirement" or (a.parser != "Rust" and r.p(0.5)):
                    q.depends.append(f)
                else:
                    q.covers.append(f)

    def link(rust):
        """links along relations; rust: only those made by marks in Rust files, else all others"""
        for u, ls in w.rels:
            ua = by[u]
            for l in ls:
                la = by[l]
                if rust and la.parser != "Rust":
                    continue
                m = len(la.abstract)
                big = max(m, len(ua.abstract))
                for uq in ua.abstract:
                    for lq in la.abstract:
                        if m > 6 and not r.p(6.0 / m):
                            continue
                        if big > 50 and m < big and not r.p(30.0 / big):
                            continue
                        if not r.p(link_p):
                            continue
                        up_ok = uq.id is not None and la.parser != "MonoRequirement" and rust == (la.parser == "Rust")
                        down_ok = not rust and lq.id is not None and ua.parser != "Rust" and \
                            (is_md_id(lq.id) or ua.parser != "MonoRequirement")
                        d = r.pick(["up", "down", "both"])
                        if d in ("up", "both") and up_ok:
                            for _ in range(2 if r.p(0.05) else 1):
                                t = ref_title(uq, "json" if la.parser == "Json" else "text", ua.with_title, ua.parser)
                                if la.parser == "Rust" and not is_rust_ident(uq.id):
                                    t = None
                                if la.parser == "Markdown" and not is_md_id(uq.id):
                                    t = None
                                lq.covers.append(Ref(uq.id, t))
                        if d in ("down", "both") and down_ok:
                            for _ in range(2 if r.p(0.05) else 1):
                                t = ref_title(lq, "json" if ua.parser == "Json" else "text", la.with_title, la.parser)
                                if ua.parser == "Markdown" and not is_md_id(lq.id):
                                    t = None
                                uq.depends.append(Ref(lq.id, t))

    link(True)
    for a in w.arts:
        if a.parser == "Rust":
            if not o.clean:
                noise_refs(a)
            render_art(r, w, a, o)
            a.abstract = []
            for q in a.found:
                a.abstract.append(AReq(q["id"]))
                all_ids.append(q["id"])
    link(False)
    for a in w.arts:
        if a.parser != "Rust" and not o.clean:
            noise_refs(a)
    if o.wide and w.rels:
        for _ in range(r.randint(1, 3)):
            u, ls = r.pick(w.rels)
            if not ls:
                continue
            ua, la = by[u], by[r.pick(ls)]
            uqs = [q for q in ua.abstract if is_md_id(q.id)]
            lqs = [q for q in la.abstract if is_md_id(q.id)]
            for own, qs, others, key, ob in ((la, lqs, uqs, "covers", ua), (ua, uqs, lqs, "depends", la)):
                if own.parser in ("Markdown", "Json") and qs and others and r.p(0.7):
                    q = r.pick(qs)
                    for _ in range(edge(r, 100 if o.dups else 1025 if r.p(0.3) else 300)):
                        t = r.pick(others)
                        if r.p(0.01):
                            x = ref_title(t, "json" if own.parser == "Json" else "text", ob.with_title, ob.parser)
                        else:
                            # no error: each would repeat all references of the requirement
                            x = t.title if t.title and t.title == t.title.strip() and "\n" not in t.title else None
                            if x is None and ob.with_title:
                                continue
                        getattr(q, key).append(Ref(t.id, x))
    for a in w.arts:
        for q in a.abstract:
            for fs in (q.covers, q.depends):
                if a.parser != "Json":
                    fs[:] = [f for f in fs if f.id]
                r.shuffle(fs)
                # ids that fit only in a short list come first
                fs.sort(key=lambda f: is_md_id(f.id) if a.parser == "Markdown" else 0)
    # further definitions of ids
    if o.dups:
        pool = [(a, q) for a in w.arts if a.parser in ("Markdown", "Json") for q in a.abstract]
        for a, q in list(pool):
            while r.p(o.dups):
                b = a if r.p(0.5) else r.pick([x for x in w.arts if x.parser in ("Markdown", "Json")])
                if b.parser == "Markdown" and not is_md_id(q.id):
                    b = a
                d = AReq(q.id, q.title if r.p(0.5) and q.title and q.title == q.title.strip() and "\n" not in q.title else title(r, o.ascii_plain))
                d.further = True
                d.covers = [Ref(f.id, None) for f in q.covers if b.parser == "Json" or is_md_id(f.id)] if r.p(0.3) else []
                b.abstract.insert(r.randint(0, len(b.abstract)), d)
    for a in w.arts:
        if a.parser != "Rust":
            render_art(r, w, a, o)
    w.rels = r.shuffled(w.rels)
    w.arts = r.shuffled(w.arts)
    for a in w.arts:
        w.features["parser_" + a.parser] += 1
    return w


DIRS = ["", "", "doc/", "doc/req/", "src/", "a b/", "ü/"]
DETOURS = ["./", "doc/../", "doc//", "doc/./req/", "x y/../doc/", "././"]


def directory(r):
    return r.pick(DETOURS) if r.p(0.05) else r.pick(DIRS)


def render_art(r, w, a, o):
    stem = "f%d" % len(w.files)
    if a.parser == "Markdown":
        path = directory(r) + stem + r.pick([".md", ".markdown", "", ".txt"])
        d = render_md(r, path, a.abstract, plain=o.ascii_plain, big=o.big)
        w.files[path] = d.render()
        a.paths, a.files, a.found = [path], [path], d.exp
        w.features.update(d.features)
    elif a.parser == "MonoRequirement":
        q = a.abstract[0]
        sub = "m%d/" % len(w.files)
        if r.p(0.05):
            sub += r.pick(["./", "/", "../%s" % sub, "x/../"])
        path = sub + q.id + r.pick([".md", "", ".txt", ".tar.gz"[0:4]])
        q.depends = [f for f in q.depends if is_md_id(f.id)]
        for f in q.depends:
            if f.title is not None and ("=>" in f.title):
                f.title = None
        data, e, feats = render_mono(r, path, q)
        w.files[path] = data
        a.paths, a.files, a.found = [path], [path], [e]
    elif a.parser == "Json":
        path = directory(r) + stem + ".json"
        reqs = [json_req(r, q) for q in a.abstract]
        if o.ascii_plain:
            for q in reqs:
                for loc in [q["location"]] + [f["location"] for f in q["covers"] + q["depends"]]:
                    loc["file"] = r.pick(["src/x.c", "a.txt", "/abs/path.rs", "a/b/c.h"])
        w.files[path] = render_json(r, reqs)
        a.paths, a.files, a.found = [path], [path], reqs
    else:
        marks = [f for q in a.abstract for f in q.covers]
        sub = "rs%d/" % len(w.files)
        nf = r.weighted([(1, 5), (2, 3), (4, 1)])
        names = names_iter(r, "g%d_" % len(w.files))
        cut = sorted(r.randint(0, len(marks)) for _ in range(nf - 1))
        parts = [marks[i:j] for i, j in zip([0] + cut, cut + [len(marks)])]
        found = []
        paths = []
        for k, part in enumerate(parts):
            path = sub + r.pick(["", "", "m/"]) + "x%d.rs" % k
            g = render_rust(r, path, part, names, depth=r.randint(1, 4), simple=True)
            w.files[path] = g.s.text().encode()
            found.append((path, list(g.reqs.values())))
            paths.append(path)
            w.features.update(g.features)
        how = r.randrange(3)
        if how == 0:
            a.paths = list(paths)
            order = paths
        elif how == 1:
            a.paths = [sub + "**/*.rs"]
            order = sorted(paths)
        else:
            a.paths = [sub + "*.rs", sub + "m/*.rs"]
            order = [p for p in sorted(paths) if "/m/" not in p] + [p for p in sorted(paths) if "/m/" in p]
        fm = dict(found)
        a.files = order
        a.found = [q for p in order for q in fm[p]]
