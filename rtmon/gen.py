"""Generators: ids, titles, abstract requirements, and renderers for the four input formats.

A renderer turns abstract requirements into the bytes of an input file and, while doing so,
writes down what an importer has to find there (by construction, no parsing involved):
`exp` = requirements as in the Json reports, in file order; `errs` = expected input errors.
Expected locations carry the file's path relative to the base directory, marked by REL.
"""
import json, unicodedata
from util import Rng

REL = "\0rel/"       # prefix of expected locations that are relative to the base directory


# ---------------------------------------------------------------- words

WORDS = ("alpha Beta gamma DELTA eps zeta7 eta Theta kilo-byte it's a the of one Two 3rd x "
         "trace covered by (paren) [link] a/b c:d foo_bar 100% $var `code` *bold* <tag> & = "
         "comma, semi; dot. quote\" back\\slash tilde~ plus+ pipe| at@ hash# excl! q?").split()
UNI = ["Ä", "ÖL", "Größe", "naïve", "Ωmega", "日本語", "привет", "שלום", "…", "—", "😀", "ﬁ", "１２"]
ID_STEMS = ["REQ", "DSG", "UC", "Req", "req", "A", "AB", "Fmt", "IT_Test", "x", "Z9", "UT_FuncName"]
ID_UNI = ["Caf\u00e9", "Cafe\u0301", "Äpfel", "Ωmega", "日本", "привет", "É", "ßtraße", "ñandú"]


EDGES = [e + d for e in (16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 8192, 10000, 16384, 32768, 65536, 131072) for d in (-1, 0, 1)]


def edge(r, top=1025, low=15):
    """a size next to which counters and buffers end"""
    return r.pick([e for e in EDGES if low <= e <= top])


def word(r, uni=True):
    if uni and r.p(0.08):
        return r.pick(UNI)
    return r.pick(WORDS)


def text_line(r, lo=1, hi=9, uni=True):
    return " ".join(word(r, uni) for _ in range(r.randint(lo, hi)))


def plain_words(r, lo=1, hi=6):
    return " ".join(r.pick(["lorem", "ipsum", "dolor", "sit", "amet", "sed", "do", "eiusmod", "x1", "y2"])
                    for _ in range(r.randint(lo, hi)))


def title(r, ascii_plain=False):
    """a title without surrounding white space, on one line"""
    if ascii_plain:
        return " ".join(r.pick(["Allow", "Trace", "all", "files", "in", "Report", "42", "UTF-8", "the_name",
                                "(soon)", "it's", "a.b", "x/y", "Really!"])
                        for _ in range(r.randint(1, 5)))
    k = r.random()
    if k < 0.04:
        return r.pick(["x", "0", ":", "A: B", "::", "#", "# x", "=> REQ_1", "a" * 300, "Long " * (edge(r, 4097) // 5) + "title", "y" * edge(r, 1025), "REQ_1: Title", "* A_1", "\"q\"",
                       "tab\tinside", "two  spaces", "ends with #", "Covers:", "'", "\\n", "\\", "A\u00a0B"])
    return text_line(r, 1, 6)


def title_near(r, t):
    """a title that differs from t, often only slightly; no surrounding white space"""
    for _ in range(20):
        k = r.randrange(11)
        if k == 10:
            n = unicodedata.normalize(r.pick(["NFC", "NFD", "NFKC"]), t)
        elif k == 0:
            n = t.swapcase()
        elif k == 1:
            n = t + r.pick([".", "s", "!", " x", "'", "\""])
        elif k == 2:
            n = t[:-1]
        elif k == 3:
            n = t[1:]
        elif k == 4:
            n = t.replace(" ", "  ", 1)
        elif k == 5:
            n = t.replace(" ", "", 1)
        elif k == 6 and t:
            i = r.randrange(len(t))
            n = t[:i] + r.pick("aZ0") + t[i + 1:]
        elif k == 7:
            n = t.lower()
        elif k == 8:
            n = "x" + t
        else:
            n = title(r)
        n = n.strip()
        if n and n != t and n == n.strip(" \t\r\n\u00a0\u2026"):
            return n
    return t + "x"


def title_near_space(r, t):
    """a title that differs from t in white space and characters that are hard to see"""
    x = r.pick([" ", "  ", "\t", "\n", "\u00a0", "\u200b", "\ufeff", "\r", "\0", "\u3000", "\n\n", ": "])
    n = r.pick([t + x, x + t, x + t + x, x, "", t + "\n" + t])
    return n if n != t else t + " "


def xid(r):
    """an id of letters, digits, underscore that starts with a letter"""
    k = r.random()
    if k < 0.72:
        s = r.pick(ID_STEMS) + "_" + r.pick(["1", "2", "3", "10", "11", "12", "A", "a", "Foo", "foo", "FooBar", "v2",
                                             "1_v2", "1_", "x_y", str(r.randrange(1000)), str(r.randrange(100000))])
    elif k < 0.84:
        s = r.pick(ID_STEMS) + str(r.randrange(100))
    elif k < 0.94:
        s = r.pick(ID_UNI) + r.pick(["_1", "_2", "X", "9"])
    elif k < 0.97:
        s = "L" + "ong" * r.randint(10, 60) + str(r.randrange(9))
    else:
        s = r.pick(["aa", "AA", "Aa", "aA", "ab", "Covers", "Depends", "Description", "fn_", "self_"])
    return s


def id_near(r, i):
    """an id different from i but easily confused with it"""
    for _ in range(20):
        k = r.randrange(8)
        if k == 7:
            n = unicodedata.normalize(r.pick(["NFC", "NFD"]), i)
        elif k == 0:
            n = i.swapcase()
        elif k == 1:
            n = i + r.pick(["1", "_", "x", "0", "_v2"])
        elif k == 2:
            n = i[:-1]
        elif k == 3:
            n = "X" + i
        elif k == 4:
            j = r.randrange(len(i))
            n = i[:j] + r.pick("aA0_") + i[j + 1:]
        elif k == 5:
            n = i.lower()
        else:
            n = i.upper()
        if n != i and len(n) > 1 and n.isidentifier() and not n.startswith("_") and len(n) < 300 and n.isalnum is not None:
            if all(c.isalnum() or c == "_" for c in n):
                return n
    return i + "_q"


def odd_id(r):
    """an id that only Json artefacts can define"""
    return r.pick(["REQ-1", "a b", "1.2.3", "X", "§4.2", "REQ_1.a", "req:1", "(x)", "REQ_1()", "日", "a/b", "x@y", "7", "[x]", "A::b", "-", "\"q\"", "*", "`REQ_1`", "REQ_1;REQ_2", "A_1;", "'x'", "<x>", "{a}", "REQ_1.", "#1", "a_1:", ":x", "=> A_1", "**B_1**", "_x1", "A_1 (old)", "a|b"]) \
        + r.pick(["", "", "0", "z"])


def unique_ids(r, n, used=None):
    used = used if used is not None else set()
    out = []
    while len(out) < n:
        i = id_near(r, r.pick(out)) if out and r.p(0.3) else xid(r)
        if i in used:
            i = i + "_" + str(r.randrange(10 ** 6))
        if i in used:
            continue
        used.add(i)
        out.append(i)
    return out


# ---------------------------------------------------------------- abstract requirements

class Ref:
    __slots__ = ("id", "title")

    def __init__(self, id, title=None):
        self.id, self.title = id, title


class AReq:
    __slots__ = ("id", "title", "covers", "depends", "tags", "attrs", "loc", "further")

    def __init__(self, id, title=None):
        self.id, self.title = id, title
        self.covers, self.depends, self.tags, self.attrs = [], [], [], {}
        self.loc = None
        self.further = False


def line_loc(path, n):
    return {"file": REL + path, "location_in_file": {"Line": n}}


def col_loc(path, line, col):
    return {"file": REL + path, "location_in_file": {"LineAndColumn": [line, col]}}


def file_loc(path):
    return {"file": REL + path, "location_in_file": None}


# ---------------------------------------------------------------- Markdown

WHITE = ["\t", "\u00a0", " \t ", "\u3000 ", "\u2003", "\x0b", "\x0c", "\u2028", "\x85"]
JSON_ATTRS = ["description", "DESCRIPTION", "Descriptions", "Title", "Id", "with space", "Überblick", "covers", "Tags", "Input Errors", "lower", "description_", "Derived", "x:y"]
ATTRS = ["Comment", "History", "Rationale", "Note", "Version", "Ab", "Status", "Owner", "Origin", "Coversx", "Depend",
         "Author", "Date", "Risk", "Source", "Verification", "Priority", "Cover", "Dependson", "Descriptions", "Tags", "Title", "Id",
         "Averylongattributename" + "x" * 60]


def attr_names(r, n):
    """n names of attributes"""
    out = set()
    while len(out) < n:
        out.add("Q" + "".join(r.pick("abcdefghij") for _ in range(r.randint(3, 6))))
    return sorted(out)


def is_md_id(i):
    return len(i) > 1 and i.isidentifier() and not i.startswith("_")


def long_line(r, top=20000):
    """a long line of words, so that it crosses the buffers it is read with, with multi-byte characters everywhere"""
    n = r.pick([130, 300, 1000, 1030, 4100, 8200, 9000, top]) if r.p(0.7) else edge(r, top if top < 20000 or not r.p(0.15) else 131073)
    unit = r.pick(["x", "ab ", "é", "日本語 ", "a😀", "wort, ", "é: "])
    s = "w" * r.randint(1, 4) + unit * (n // len(unit))
    return s.strip() + "."


def desc_line(r):
    """a line of prose that is neither heading, attribute nor blank"""
    k = r.random()
    if k > 0.996:
        return long_line(r)
    if k < 0.12:
        return r.pick(["note: lower case is no attribute", "TODO: neither is upper case", "Two words: no attribute",
                       "X: one letter is none", "Foo-Bar: none", "    Indented: none", " # indented hash", "\t# tab hash",
                       "*   A_1: a bullet", "* REQ_1", "=> REQ_1", "====", "----", "> quote", "```", "|a|b|",
                       "http://example.org/#frag", "Foo1: none", "1. First", "Ünicode: none", "C#", "text # no heading", ".", "a"])
    return text_line(r, 1, 12)


class MdDoc:
    """builds a Markdown file line by line and the expectation along with it"""

    def __init__(self, r, path, plain=False):
        self.r, self.path, self.plain = r, path, plain
        self.lines, self.exp, self.errs = [], [], []
        self.features = set()
        self.last_level, self.in_attrs = 0, False     # of the last requirement

    def end_level(self):
        """level of a heading that ends the last requirement"""
        if not self.exp:
            return self.r.randint(1, 4)
        if self.in_attrs:
            return self.r.randint(1, 9)      # behind attributes, any heading does
        return self.r.randint(1, self.last_level)

    def add(self, line):
        self.lines.append(line)
        return len(self.lines)

    def blank(self, lo=0, hi=2):
        for _ in range(self.r.randint(lo, hi) if not self.r.p(0.01) else self.r.pick([5, 12, 50, edge(self.r, 257)])):
            self.add("" if self.plain or self.r.p(0.9) else self.r.pick([" ", "\t", "   "]))

    def filler(self):
        """text that belongs to no requirement; only behind a heading that ends requirements, or at the start"""
        r = self.r
        for _ in range(r.randint(0, 3)):
            self.blank(0, 1)
            for _ in range(r.randint(1, 3)):
                self.add(r.pick([desc_line(r), "Covers: REQ_1, REQ_2", "*   REQ_1: not in a requirement",
                                 "Comment: ignored", "Covers:"]))

    def plain_heading(self, level):
        r = self.r
        t = r.pick(["Introduction", "REQ-1: dash is no id", "1REQ: digit first", "A: too short", "REQ_1 no colon",
                    "Two Words: no id", "REQ_1 : space before colon", "", "_REQ: underscore first", "Chapter 1",
                    "`REQ_1`: quoted", "*REQ_1*: bold", "REQ_1"])
        # "# " + "" is a heading without text
        return self.add("#" * level + " " + t)

    def requirement(self, q, level=None, minimal=False):
        """q: AReq with md ids in bullets; returns nothing, appends the expectation"""
        r = self.r
        level = level or r.weighted([(1, 2), (2, 5), (3, 4), (4, 2), (5, 1), (6, 1), (7, 0.3), (9, 0.1), (33, 0.05), (edge(r, 1025), 0.02)])
        self.last_level, self.in_attrs = level, False
        sp = " " if self.plain or r.p(0.75) else r.pick(["", "  ", "\t", " \t "] + WHITE)
        sp2 = " " if self.plain or r.p(0.75) else r.pick(["", "  ", "\t", "    "] + WHITE)
        trail = "" if self.plain or r.p(0.85) else r.pick([" ", "  ", "\t"] + WHITE)
        n = self.add("#" * level + sp + q.id + ":" + sp2 + q.title + trail)
        e = {"id": q.id, "title": q.title, "location": line_loc(self.path, n), "covers": [], "depends": [],
             "tags": [], "attributes": {}}
        self.exp.append(e)
        self.features.add("level%d" % level)
        # description
        # attributes
        parts = []
        if q.covers:
            parts.append("Covers")
        if q.depends:
            parts.append("Depends")
        if "Comment" in q.attrs or not minimal:
            names = r.shuffled(ATTRS)[:r.weighted([(0, 6), (1, 3), (2, 2), (4, 1), (15, 0.1)])] if not self.plain else []
            parts += names
            if not self.plain and r.p(0.002):
                parts += attr_names(r, edge(r, 300))
                self.features.add("many_attributes")
        r.shuffle(parts)
        # description
        if q.attrs.get("Description") or (not minimal and r.p(0.6)):
            self.description(e, level, q.attrs.get("Description"), last=not parts)
        else:
            # attributes may follow the heading immediately
            if not minimal and r.p(0.04):
                parts.insert(r.randint(0, len(parts)), "Description")
            self.blank(0, 2)
        self.in_attrs = bool(parts)
        for i, a in enumerate(parts):
            last = i == len(parts) - 1
            if a == "Covers":
                self.ref_list(e, "covers", a, q.covers, last)
            elif a == "Depends":
                self.ref_list(e, "depends", a, q.depends, last)
            else:
                self.text_attr(e, a, last)
        return e

    def gap(self, last):
        """what separates an attribute from the next one; behind the last one, a heading or the end may follow at once"""
        self.blank(0 if last and self.r.p(0.3) else 1, 2)

    def description(self, e, level, given=None, last=False):
        r = self.r
        out = []
        self.blank(0, 2)
        if given is not None:
            for l in given.split("\n"):
                self.add(l)
            e["attributes"]["Description"] = given
            self.gap(last)
            return
        for i in range(r.randint(1, 3) if not r.p(0.01) else r.pick([8, 30])):
            if i:
                k = r.randint(1, 2) if not r.p(0.02) else r.pick([3, 9, 40, edge(r, 257)])
                for _ in range(k):
                    self.add("" if r.p(0.9) else r.pick(["  ", "\t", " \t"]))
                    out.append("")
            if r.p(0.12) and not self.plain:
                d = r.randint(1, 3) if not r.p(0.05) else r.pick([5, 9])
                self.add("#" * (level + d) + " Sub heading")
                out.append("#" * d + " Sub heading")
                self.features.add("subheading")
            for j in range(r.randint(1, 4) if not r.p(0.01) else 40):
                l = desc_line(r)
                if j > 0 and r.p(0.06):
                    l = r.pick(["Comment: inside a paragraph", "Covers: REQ_1", "Depends:", "Version: 3"])
                    self.features.add("mid_paragraph_attribute")
                self.add(l)
                out.append(l)
        e["attributes"]["Description"] = "\n".join(out)
        # a paragraph must end before an attribute
        self.gap(last)

    def ref_list(self, e, key, name, refs, last=False):
        """the list must be followed by blank line, heading or end of file"""
        r = self.r
        # a prefix of the references without titles may go into the short list
        n = 0
        while n < len(refs) and refs[n].title is None and "," not in refs[n].id and refs[n].id == refs[n].id.strip():
            n += 1
        must = 0      # ids which only fit in a short list
        for i, f in enumerate(refs):
            if not is_md_id(f.id):
                must = i + 1
        assert must <= n, "unrenderable reference list"
        short = must if must == n else r.randint(must, n) if r.p(0.5) else (must if r.p(0.7) else n)
        sl = refs[:short]
        if sl:
            sep = lambda: ", " if r.p(0.8) else r.pick([",", " , ", ",  ", ",\t", ", , ", ",\u00a0", "\u2003, "])
            s = sl[0].id
            for f in sl[1:]:
                s += sep() + f.id
            if r.p(0.1):
                s += r.pick([",", " ,", "  "])
            ln = self.add(name + ":" + r.pick([" ", " ", " ", "", "  ", "\t"]) + s)
            for f in sl:
                e[key].append({"id": f.id, "title": None, "location": line_loc(self.path, ln)})
            self.features.add("short_list")
        else:
            self.add(name + ":" + r.pick(["", "", "", " ", "  "]))
        for f in refs[short:]:
            bullet = "*   " if r.p(0.6) else r.pick(["* ", "- ", "+ ", "  * ", "    -   ", "*\t", "\t* ", " +  "])
            t = ""
            if f.title is not None:
                t = ":" + (r.pick([" ", " ", " ", "", "  ", "\t"]) if r.p(0.9) else r.pick(WHITE)) + f.title
            ln = self.add(bullet + f.id + t + ("" if r.p(0.9) else r.pick([" ", "  ", "\t"] + WHITE)))
            e[key].append({"id": f.id, "title": f.title, "location": line_loc(self.path, ln)})
            self.features.add("long_list")
        self.in_attrs = True
        self.gap(last)

    def text_attr(self, e, name, last=False):
        r = self.r
        out = []
        if r.p(0.6):
            first = desc_line(r).strip()
            self.add(name + ":" + r.pick([" ", " ", "", "   "]) + first)
            out.append(first)
        else:
            self.add(name + ":")
        for p in range(r.randint(0, 2) if not r.p(0.02) else r.pick([5, 20])):
            if p or r.p(0.3):
                for _ in range(1 if not r.p(0.1) else r.pick([2, 3, 12])):
                    self.add("" if r.p(0.9) else r.pick(["  ", "\t"]))
                    out.append("")
            for _ in range(r.randint(1, 3) if not r.p(0.02) else 30):
                l = desc_line(r)
                self.add(l)
                out.append(l)
        e["attributes"][name] = "\n".join(out)
        self.in_attrs = True
        if not last and r.p(0.15):
            self.features.add("attribute_without_gap")      # the next attribute ends a text attribute anyway
        else:
            self.gap(last)
        self.features.add("text_attr")

    def render(self, final_newline=None):
        r = self.r
        s = "\n".join(self.lines)
        if self.lines and (final_newline if final_newline is not None else r.p(0.8)):
            s += "\n"
        return s.encode()


def render_md(r, path, reqs, plain=False, big=False):
    d = MdDoc(r, path, plain)
    if r.p(0.4):
        if r.p(0.5):
            d.filler()
        d.plain_heading(r.randint(1, 3))
        d.filler()
        d.blank(0, 2)
    for q in reqs:
        level = r.weighted([(1, 2), (2, 5), (3, 4), (4, 2), (5, 1), (6, 1), (8, 0.2)])
        if big and r.p(0.02):
            d.plain_heading(d.end_level())
            for _ in range(r.pick([50, 400, 2000]) if not r.p(0.1) else edge(r, 66000)):
                d.add(r.pick(["", "filler text that is long enough to fill buffers quickly", "x" * 500]) if len(d.lines) < 3000 else "")
        # text directly above belongs to the previous requirement; only headings may come between
        if r.p(0.25):
            d.plain_heading(d.end_level())
            if r.p(0.5):
                d.filler()
        d.requirement(q, level)
        if r.p(0.2):
            # trailing blank lines do not matter
            d.blank(0, 3)
    if reqs and r.p(0.2):
        d.plain_heading(d.end_level())
        if r.p(0.5):
            d.filler()
    return d


# ---------------------------------------------------------------- single requirement file

def render_mono(r, path, q, plain=False):
    """q.depends with XID ids; returns (bytes, expectation, features)"""
    lines = []
    feats = set()
    for _ in range(r.weighted([(0, 6), (1, 2), (3, 1), (30, 0.1), (edge(r, 1025), 0.05), (edge(r, 66000), 0.01)])):
        lines.append("" if len(lines) > 1000 else r.pick(["", "  ", "---", "-" * 200, "/* ", "####", "<!-- -->", "***", "=> ", "…", "!!", "//"]))
    t = q.title
    if t is None:
        feats.add("no_title")
        data = "\n".join(lines)
    else:
        deco = r.pick([("", ""), ("# ", ""), ("## ", " ##"), ("/* ", " */"), ("// ", ""), ("  ", "  "), ("** ", " **"),
                       ("\"", "\""), ("<!-- ", " -->"), ("=> ", ""), ("…", "…"), ("\t", "."), ("(", ")")])
        lines.append(deco[0] + t + deco[1])
        exp = []
        todo = list(q.depends)
        while todo or r.p(0.5):
            if r.p(0.002):
                lines += [""] * edge(r, 1025 if not r.p(0.1) else 66000)
            if todo and r.p(0.5):
                f = todo.pop(0)
                pre = r.pick(["    *   ", "", "some text ", "* ", "another requirement ", "a = > b ", "foo=", "日本 ", "=", "=> 1 ", "x => y z "])
                s = pre + "=>" + (r.pick([" ", "  ", "", "\t"]) if r.p(0.9) else r.pick(WHITE)) + f.id
                if r.p(0.01):
                    s = long_line(r) + s
                if f.title is not None:
                    s += ":" + (r.pick([" ", "", "     "]) if r.p(0.8) else r.pick(WHITE)) + f.title
                s += r.pick(["", "", "", " ", "   ", "\t"]) if r.p(0.9) else r.pick(WHITE)
                lines.append(s)
                exp.append({"id": f.id, "title": f.title, "location": line_loc(path, len(lines))})
            else:
                lines.append(r.pick(["", "", "plain text", "=>", "=> ", "=> 1abc", "=> A", "=> REQ_1 and more words",
                                     "-> REQ_1", "=> REQ-1", "=> REQ_1.", "REQ_1", "* REQ_2: title", "= > REQ_1",
                                     "Depends: REQ_1", "```", "```", "~~~", "<!--", "-->", "# Heading", "## REQ_1: like this", "> quote", "Covers:", "---", "/*", "*/",
                                     "#if 0", "#endif", "=====", "text => ", "=> _x1 y", "=>> REQ_1", desc_line(r)
                                     if not plain else "words"]))
                # desc_line may produce an arrow: only the fixed one, which is not wanted here
                if lines[-1] == "=> REQ_1" or lines[-1].endswith("=> REQ_1"):
                    lines[-1] = "no arrow"
        data = "\n".join(lines)
        q_exp = exp
    if data and r.p(0.8):
        data += "\n"
    stem = path.rsplit("/", 1)[-1]
    if "." in stem[1:]:
        stem = stem[:stem.rindex(".")]
    e = {"id": stem, "title": t, "location": file_loc(path), "covers": [],
         "depends": q_exp if t is not None else [], "tags": [], "attributes": {}}
    return data.encode(), e, feats


def trim_title(t):
    """title as a single-requirement file shows it"""
    a, b = 0, len(t)
    ok = lambda c: c.isalnum() or c == "_"
    while a < b and not ok(t[a]):
        a += 1
    while b > a and not ok(t[b - 1]):
        b -= 1
    return t[a:b]


# ---------------------------------------------------------------- Json

def render_json(r, reqs, wrap=None):
    """reqs: list of requirement objects (Json values)"""
    wrap = r.p(0.5) if wrap is None else wrap
    def shuffle_keys(o):
        if isinstance(o, dict):
            ks = list(o)
            r.shuffle(ks)
            return {k: shuffle_keys(o[k]) for k in ks}
        if isinstance(o, list):
            return [shuffle_keys(x) for x in o]
        return o
    v = [shuffle_keys(x) for x in reqs]
    if wrap:
        v = {"version": 0, "requirements": v}
        if r.p(0.3):
            v["errors"] = []
        if r.p(0.5):
            v = {k: v[k] for k in reversed(list(v))}
    s = json.dumps(v, ensure_ascii=r.p(0.4), indent=r.pick([None, 2, 1]))
    if r.p(0.3):
        s = r.pick(["\n", "  ", "\t\n"]) + s
    if r.p(0.5):
        s += "\n"
    return s.encode("utf-8")


def json_loc(r, deep=False):
    f = r.pick(["src/x.c", "a.txt", "dir with space/f.md", "/abs/path.rs", "x:3", "ü.md", "a/b/c.h"])
    k = r.randrange(4)
    if k == 0:
        lif = None
    elif k == 1:
        lif = {"Line": r.pick([0, 1, 2, 42, 65535, 65536, 100000, 2 ** 31, 2 ** 53 + 1] if deep else [1, 2, 42, 70000, 0])}
    elif k == 2:
        lif = {"LineAndColumn": [r.randint(1, 99999), r.pick([0, 1, 80, 256, 70000])]}
    else:
        lif = {"String": r.pick(["page 3", "Sheet1!A3", "§4.2", "12", "x:y", "", " a "] if deep else ["page 3", "A3"])}
    return {"file": f, "location_in_file": lif}


def json_req(r, q, plain=False):
    """Json form of an abstract requirement"""
    loc = q.loc or json_loc(r)
    o = {"id": q.id, "title": q.title, "location": loc,
         "covers": [{"id": f.id, "title": f.title, "location": json_loc(r)} for f in q.covers],
         "depends": [{"id": f.id, "title": f.title, "location": json_loc(r)} for f in q.depends],
         "tags": list(q.tags), "attributes": dict(q.attrs)}
    return o


# ---------------------------------------------------------------- Rust

class Src:
    """text writer that knows its position (line from 1, column in characters from 0)"""

    def __init__(self):
        self.buf, self.line, self.col, self.bom = [], 1, 0, ""

    def tail(self, n):
        return "".join(self.buf[-6:])[-n:]

    def w(self, s):
        self.buf.append(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rindex("\n") - 1
        else:
            self.col += len(s)
        return self

    def pos(self):
        return self.line, self.col

    def text(self):
        return self.bom + "".join(self.buf)


def rust_str(r, s):
    """a Rust string literal with the value s"""
    if r.p(0.25) and "\r" not in s:
        n = 0
        while '"' + "#" * n in s:
            n += 1
        n = max(n, r.randint(0, 2))
        return "r" + "#" * n + '"' + s + '"' + "#" * n
    out = []
    for c in s:
        if c == '"':
            out.append('\\"')
        elif c == "\\":
            out.append("\\\\")
        elif c == "\n":
            out.append("\\n")
        elif c == "\t" and r.p(0.5):
            out.append("\\t")
        elif r.p(0.03):
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


TYPES = ["dyn Tr + Send", "fn(u8) -> u8", "*const u8", "[T]", "Wrap<{ N }>", "<A as B>::C", "Struct", "Foo", "Bar<T>", "Vec<u8>", "&'a str", "(A, B)", "[u8; 4]", "path::Type", "Box<dyn Fn(u8) -> u8>"]
TRAITS = ["Trait", "Add<&'a Foo, Output = u8>", "Fn(u8) -> u8", "Display", "From<u8>", "fmt::Debug", "Iterator"]


class RustGen:
    """builds a Rust source file around a list of (mark id, title) to be placed"""

    def __init__(self, r, path, names, marks, errors=0.0, depth=4, simple=False):
        self.r, self.path, self.s = r, path, Src()
        self.names = names              # iterator of fresh identifiers
        self.marks = list(marks)        # Ref objects still to place
        self.reqs = {}                  # scope id -> expectation, insertion order
        self.errs = []                  # (line, col) of expected format errors
        self.scope = []                 # (name, location)
        self.err_rate = errors
        self.depth = depth
        self.simple = simple            # only types that are a single name
        self.twins = {}
        self.indent = 0
        self.features = set()

    def nl(self):
        r = self.r
        self.s.w("\n")
        if r.p(0.08):
            self.s.w("\n" * (r.randint(1, 3) if not r.p(0.01) else edge(r, 300) if not r.p(0.02) else edge(r, 66000)))
        if r.p(0.1):
            k = r.randrange(5)
            ind = "    " * self.indent
            if k == 0:
                self.s.w(ind + "// requirement_covered!(IN_COMMENT);\n")
            elif k == 1:
                self.s.w(ind + "/* requirement_covered!(IN_BLOCK)\n /* nested */ */\n")
            elif k == 2:
                self.s.w(ind + "// ünïcödé comment 😀\n")
            elif k == 3:
                self.s.w(ind + "//\n")
        self.s.w("    " * self.indent if r.p(0.95) else r.pick(["", "\t", " "]))

    def mark(self):
        """write one mark (no terminator)"""
        r = self.r
        if r.p(0.04):
            self.s.w("/* é */ ")
        line, col = self.s.pos()
        self.s.w("requirement_covered")
        if r.p(0.05):
            self.s.w(" ")
        self.s.w("!")
        if r.p(0.05):
            self.s.w(" ")
        op, cl = r.pick([("(", ")")] * 18 + [("[", "]")] * 2 + [("{", "}")])
        self.s.w(op)
        ws = lambda: self.s.w(r.pick(["", "", "", " ", "  ", "\n        ", " /* c */ "]))
        if self.err_rate and r.p(self.err_rate) or not self.marks:
            # bad arguments
            k = r.randrange(5)
            self.features.add("bad_mark%d" % k)
            if k == 0:
                ws()
                at = (line, col)
            elif k == 1:
                ws()
                at = self.s.pos()
                self.s.w(r.pick(["17", "'c'", "1.5", "(A)", "*", "b\"x\""]))
            elif k == 2:
                ws()
                self.s.w("REQ_X,")
                ws()
                at = self.s.pos()
                self.s.w(r.pick(["17", "IDENT", "'c'", "(\"x\")", "b\"x\""]))
            elif k == 3:
                ws()
                at = self.s.pos()
                self.s.w(r.pick(["17, \"t\"", "(A), \"t\"", "\"REQ_X\", \"t\""]))
            else:
                self.s.w("A, \"t\", 3")
                at = (line, col)
            ws()
            self.s.w(cl)
            # where exactly a bad mark is reported, at its start or at the argument, does not matter
            self.errs.append({(line, col), at})
            return
        f = self.marks.pop(0)
        ws()
        if f.title is not None:
            self.s.w(f.id)
            ws()
            self.s.w(r.pick([",", ",", ", ", ":"]))
            ws()
            self.s.w(rust_str(r, f.title))
        elif is_rust_ident(f.id) and r.p(0.8):
            self.s.w(f.id)
        else:
            self.s.w(rust_str(r, f.id))
        ws()
        self.s.w(cl)
        if not self.scope:
            self.errs.append({(line, col)})
            self.features.add("outside")
            return
        sid = "::".join(n for n, _ in self.scope)
        e = self.reqs.get(sid)
        if e is None:
            e = self.reqs[sid] = {"id": sid, "title": None, "location": col_loc(self.path, *self.scope[-1][1]),
                                  "covers": [], "depends": [], "tags": [], "attributes": {}}
        e["covers"].append({"id": f.id, "title": f.title, "location": col_loc(self.path, line, col)})
        self.features.add("mark_depth%d" % len(self.scope))

    def decoy(self):
        """code that contains no mark"""
        r = self.r
        self.s.w(r.pick(["let x = 1;", "foo();", "println!(\"requirement_covered!(IN_STRING)\");",
                         "let s = \"requirement_covered!(IN_STRING);\";", "other_macro!(REQ_1);", "x += 1;",
                         "requirement_covered_not!(REQ_1);", "requirement_covered(REQ_1);", "assert!(true, \"x\");",
                         "let requirement_covered = 3;", "return_it(|a| a + 1);", "let c = 'x';", "vec![1, 2];",
                         "other::macro_call!(REQ_2);", "let v: Vec<u8> = Vec::new();", "let s = c\"requirement_covered!(IN_STRING)\";",
                         "foo(cr#\"requirement_covered!(\"X\")\"#, c\"\\xff é\");", "let b = b\"requirement_covered!(IN_BYTES)\";",
                         "let Some(x) = y else { return };", "let l: &'static str = r\"requirement_covered!(RAW)\";", "m! { requirement_covered!(IN_OTHER); }",
                         "path::requirement_covered!(REQ_1);"]))

    def block(self, depth, allow_tail=False):
        """{ statements }"""
        r = self.r
        self.s.w("{")
        self.indent += 1
        n = r.weighted([(0, 1), (1, 4), (2, 3), (4, 2), (7, 0.5)]) if depth > 0 else r.weighted([(0, 2), (1, 2), (2, 2), (30, 0.03)])
        for _ in range(n):
            self.nl()
            self.stmt(depth - 1)
        if allow_tail and self.marks and r.p(0.15):
            self.nl()
            self.mark()
            self.features.add("tail")
        self.indent -= 1
        self.nl()
        self.s.w("}")

    def stmt(self, depth):
        r = self.r
        k = r.random()
        if self.marks and k < 0.45 or depth <= 0:
            if self.marks or self.err_rate and r.p(self.err_rate):
                self.mark()
                self.s.w(";")
                if r.p(0.1):
                    self.s.w(" ")
                    if self.marks:
                        self.mark()
                        self.s.w(";")
            else:
                self.decoy()
            return
        if k < 0.55:
            self.decoy()
            return
        form = r.randrange(34)
        self.features.add("form%d" % form)
        if form == 0:
            self.s.w("if x " )
            self.block(depth)
            self.s.w(" else if y == 2 ")
            self.block(depth)
            self.s.w(" else ")
            self.block(depth)
        elif form == 1:
            self.s.w("match x { 1 => ")
            self.block(depth)
            self.s.w(", 2 => ")
            if self.marks:
                self.mark()
            else:
                self.s.w("()")
            self.s.w(", _ if y => {} _ => ")
            self.block(depth)
            self.s.w(" }")
        elif form == 2:
            self.s.w("for i in 0..3 ")
            self.block(depth)
        elif form == 3:
            self.s.w("while let Some(x) = y ")
            self.block(depth)
        elif form == 4:
            self.s.w("loop ")
            self.block(depth)
        elif form == 5:
            self.s.w("let f = |a: u8| ")
            self.block(depth)
            self.s.w(";")
        elif form == 6:
            self.s.w("unsafe ")
            self.block(depth)
        elif form == 7:
            self.s.w("let v = ")
            self.block(depth)
            self.s.w(";")
        elif form == 8:
            self.s.w("call(1, async move ")
            self.block(depth)
            self.s.w(");")
        elif form == 9:
            self.block(depth)
        elif form == 10:
            self.s.w("let g = move || ")
            if self.marks:
                self.mark()
            else:
                self.s.w("()")
            self.s.w(";")
        elif form == 11:
            self.item(depth)          # nested item
        elif form == 12:
            self.s.w("x.map(|_| ")
            self.block(depth)
            self.s.w(").unwrap();")
        elif form == 13:
            self.s.w("if let Some(x) = y ")
            self.block(depth)
        elif form == 14:
            self.s.w("while x < 3 ")
            self.block(depth)
        elif form == 15:
            self.s.w("'outer: loop ")
            self.block(depth)
        elif form == 16:
            self.s.w("let v = S { a: 1, b: ")
            self.block(depth)
            self.s.w(", ..d };")
        elif form == 17:
            self.s.w("let v = if x == ")
            self.block(depth)
            self.s.w(" { 1 } else { 2 };")
        elif form == 18:
            self.s.w("#[cfg(feature = \"x\")] ")
            if self.marks:
                self.mark()
            else:
                self.s.w("foo()")
            self.s.w(";")
        elif form == 19:
            self.s.w("match ")
            self.block(depth)
            self.s.w(" { Some(n) if n > 3 => ")
            self.block(depth)
            self.s.w(" _ => unreachable!() }")
        elif form == 20:
            self.s.w("return Err(")
            self.block(depth)
            self.s.w(");")
        elif form == 21:
            self.s.w("let t = (1, ")
            if self.marks:
                self.mark()
            else:
                self.s.w("2")
            self.s.w(", [")
            self.block(depth)
            self.s.w("; 2]);")
        elif form == 22:
            self.s.w("x[")
            self.block(depth)
            self.s.w("] = !")
            self.block(depth)
            self.s.w(" as u8;")
        elif form == 23:
            self.s.w("foo(")
            if self.marks:
                self.mark()
            else:
                self.s.w("2")
            self.s.w(", 1)?.bar(|a, b| ")
            self.block(depth)
            self.s.w(").await;")
        elif form == 24:
            self.s.w("let _ = async ")
            self.block(depth)
            self.s.w(".await? && ")
            self.block(depth)
            self.s.w(";")
        elif form == 25:
            self.s.w("let Some(x) = y.or(")
            self.block(depth)
            self.s.w(") else ")
            self.block(depth)
            self.s.w(";")
        elif form == 26:
            a, b = r.pick([("let v = const ", ";"), ("foo(1, const ", ");"), ("const ", ";")])
            self.s.w(a)
            self.block(depth)
            self.s.w(b)
        elif form == 27:
            self.s.w("let p = &raw %s *(" % r.pick(["const", "mut"]))
            self.block(depth)
            self.s.w(");")
        elif form == 28:
            self.s.w("let (A(x) | B(x), [.., z]): T = (match y { 1 => ")
            self.block(depth)
            self.s.w(" n if n != (3) && n != ")
            self.block(depth)
            self.s.w(" => other!(requirement_covered!(IN_OTHER)), _ => ")
            if self.marks:
                self.mark()
            else:
                self.s.w("z")
            self.s.w(" }).opt() else { return }; ")
            if self.marks:
                self.mark()
                self.s.w(";")
        elif form == 29:
            self.s.w("if let Some(x) = y && x > 3 ")
            self.block(depth)
        elif form == 30:
            self.s.w("_ = ")
            self.block(depth)
            self.s.w(";")
        elif form == 31:
            self.s.w("'a: loop { break 'a ")
            self.block(depth)
            self.s.w("; }")
        elif form == 32:
            self.s.w("let v = 'b: ")
            self.block(depth)
            self.s.w(";")
        else:
            self.s.w("for (i, x) in ")
            self.s.w("(0..3).map(|x| ")
            self.block(depth)
            self.s.w(") ")
            self.block(depth)

    def fn(self, depth, method=False, trait=False):
        r = self.r
        name = next(self.names)
        if r.p(0.03) and not self.simple:
            name = "r#" + r.pick(["fn", "type", "match", "async"]) + ("_" + name if r.p(0.5) else "")
            if any(i.endswith(name) for i in self.reqs):
                name = next(self.names)
        sp = tuple(n for n, _ in self.scope)
        if not self.simple and sp in self.twins and r.p(0.05):
            name = self.twins[sp]           # a second item of the same path (cfg variants): the same requirement
            self.features.add("twin")
        self.twins[sp] = name
        self.s.w(r.pick(["", "", "", "pub ", "async ", "unsafe ", "const ", "pub(crate) ", "pub(in a::b) ", "extern \"C\" ",
                         "pub const unsafe extern \"C\" "]) if not trait else
                 r.pick(["", "", "unsafe ", "async "]))
        self.s.w("fn ")
        pos = self.s.pos()
        self.s.w(name)
        self.s.w(r.pick(["", "", "<T>", "<'a, T: Clone>"]))
        self.s.w(r.pick(["()", "(a: u8)", "(&self)", "(&mut self, b: Vec<u8>)"]) if method else r.pick(["()", "(a: u8)"]))
        self.s.w(r.pick(["", "", " -> u8", " -> Result<(), E>", " -> impl Fn(u8) -> u8 where T: Clone", " where T: Clone"]))
        if trait and r.p(0.3):
            self.s.w(";")
            return
        self.s.w(" ")
        self.scope.append((name, pos))
        self.block(depth - 1, allow_tail=True)
        self.scope.pop()

    def tower(self, n, body=False, cls=False):
        """n items inside each other, marks at the bottom and behind inner items; body: in a function, cls: in impl or trait"""
        r = self.r
        self.features.add("tower")
        if n == 0:
            for _ in range(r.randint(1, 3)):
                if self.marks and body:
                    self.nl()
                    self.mark()
                    self.s.w(";")
            return
        k = "fn" if cls or n == 1 else r.pick(["fn", "mod", "impl", "trait", "block", "closure"] if body else ["fn", "mod", "mod", "impl", "trait"])
        name = next(self.names)
        self.nl()
        post = ""
        if k == "fn":
            self.s.w("fn ")
            self.scope.append((name, self.s.pos()))
            self.s.w(name + "() {")
        elif k == "mod":
            self.s.w("mod ")
            self.scope.append((name, self.s.pos()))
            self.s.w(name + " {")
        elif k == "trait":
            self.s.w("trait ")
            self.scope.append((cap(name), self.s.pos()))
            self.s.w(cap(name) + " {")
        elif k == "impl":
            t = cap(name)
            if r.p(0.5):
                self.s.w("impl Trait for ")
                self.scope.append(("(%s as Trait)" % t, self.s.pos()))
            else:
                self.s.w("impl ")
                self.scope.append((t, self.s.pos()))
            self.s.w(t + " {")
        elif k == "block":
            self.s.w(r.pick(["{", "loop {", "if x {", "unsafe {", "for i in 0..2 {"]))
        else:
            self.s.w("let f = || {")
            post = ";"
        self.indent += 1
        inner_body = k in ("fn", "block", "closure")
        if inner_body and self.marks and r.p(0.3):
            self.nl()
            self.mark()
            self.s.w(";")
        self.tower(n - 1, inner_body, k in ("impl", "trait"))
        if inner_body and self.marks and r.p(0.6):
            self.nl()
            self.mark()
            self.s.w(";")
        self.indent -= 1
        self.nl()
        self.s.w("}" + post)
        if k not in ("block", "closure"):
            self.scope.pop()

    def item(self, depth):
        r = self.r
        if self.marks and r.p(0.04) and (self.scope or self.err_rate):
            # a mark in the place of an item
            self.features.add("item_mark")
            self.mark()
            self.s.w("" if self.s.tail(1) == "}" else ";")
            return
        k = r.weighted([("fn", 5), ("impl", 3), ("traitimpl", 2), ("trait", 1.5), ("mod", 3.5), ("plain", 1.5), ("const", 0.6)])
        while r.p(0.15):
            self.s.w(r.pick(["#[inline]", "#[cfg(test)]", "#[cfg(test)]", "#[test]", "#[ignore]", "#[doc = \"requirement_covered!(X)\"]", "/// requirement_covered!(IN_DOC)",
                             "#[cfg(not(unix))]", "#[cfg(feature = \"x\")]", "#[deprecated(note = \"x\")]", "#[doc(hidden)]", "#[allow(dead_code)]", "#[cfg_attr(test, ignore)]",
                             "/** doc */"]))
            self.nl()
        if depth <= 0 and k not in ("plain", "const"):
            k = "fn"
        self.features.add(k)
        if k == "fn":
            self.fn(depth)
        elif k in ("impl", "traitimpl"):
            ty = r.pick(TYPES)
            if self.simple or not ty[0] in "&([B":
                ty = cap(next(self.names)) + ("" if self.simple else r.pick(["", "", "<T>"]))
            self.s.w("impl")
            self.s.w(r.pick(["", "<T>", "<'a>"]) + " ")
            if k == "traitimpl":
                tr = "Trait" if self.simple else r.pick(TRAITS)
                bang = "!" if not self.simple and r.p(0.05) else ""
                self.s.w(bang + tr + " for ")
                name = "(%s as %s%s)" % (ty, bang, tr)
            else:
                name = ty
            pos = self.s.pos()
            self.s.w(ty + (" where T: Clone" if r.p(0.1) else "") + " {")
            self.scope.append((name, pos))
            self.indent += 1
            for _ in range(r.randint(0, 3)):
                self.nl()
                if self.marks and r.p(0.04):
                    self.features.add("item_mark")
                    self.mark()
                    self.s.w("" if self.s.tail(1) == "}" else ";")
                elif r.p(0.06):
                    self.s.w("const %s: () = " % next(self.names).upper())
                    self.block(1)
                    self.s.w(";")
                else:
                    self.fn(depth - 1, method=True)
            self.indent -= 1
            self.nl()
            self.s.w("}")
            self.scope.pop()
        elif k == "trait":
            name = cap(next(self.names))
            self.s.w(r.pick(["", "pub "]) + "trait ")
            pos = self.s.pos()
            self.s.w(name + r.pick(["", ": Clone", "<T>"]) + " {")
            self.scope.append((name, pos))
            self.indent += 1
            for _ in range(r.randint(0, 3)):
                self.nl()
                if self.marks and r.p(0.04):
                    self.features.add("item_mark")
                    self.mark()
                    self.s.w("" if self.s.tail(1) == "}" else ";")
                elif r.p(0.08):
                    self.s.w("const %s: () = " % next(self.names).upper())
                    self.block(1)
                    self.s.w(";")
                elif r.p(0.08):
                    self.s.w("type %s: Clone;" % cap(next(self.names)))
                else:
                    self.fn(depth - 1, method=True, trait=True)
            self.indent -= 1
            self.nl()
            self.s.w("}")
            self.scope.pop()
        elif k == "mod":
            name = next(self.names)
            self.s.w(r.pick(["", "pub "]) + "mod ")
            pos = self.s.pos()
            self.s.w(name + " {")
            self.scope.append((name, pos))
            self.indent += 1
            for _ in range(r.pick([0, 1, 1, 2, 2, 3])):
                self.nl()
                self.item(depth - 1)
            self.indent -= 1
            self.nl()
            self.s.w("}")
            self.scope.pop()
        elif k == "const":
            # expression outside of functions: belongs to the enclosing module or impl, if any
            if not self.scope and not self.err_rate:
                self.s.w("const C%d: u8 = 1;" % r.randrange(10 ** 9))
                return
            if r.p(0.3):
                self.s.w("enum E%d { A, B = " % r.randrange(10 ** 9))
                self.block(1)
                self.s.w(" }")
                return
            self.s.w("static S%d: () = " % r.randrange(10 ** 9))
            self.block(1)
            self.s.w(";")
        else:
            n = next(self.names)
            self.s.w(r.pick(["struct %s { a: u8 }" % cap(n), "enum %s { A, B }" % cap(n),
                             "use std::fmt::%s;" % n, "type %s = u8;" % cap(n), "mod %s;" % n,
                             "macro_rules! %s { () => { requirement_covered!(IN_RULES); } }" % n,
                             "struct %s;" % cap(n), "extern crate %s;" % n]))

    def rest(self):
        """place the remaining marks in a final function"""
        while self.marks:
            self.nl()
            before = len(self.marks)
            self.fn(self.depth)
            if len(self.marks) == before:
                name = next(self.names)
                self.s.w("\nfn ")
                pos = self.s.pos()
                self.s.w(name + "() {")
                self.scope.append((name, pos))
                self.nl()
                self.mark()
                self.s.w("; }")
                self.scope.pop()


RUST_KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref "
              "return self Self static struct super trait true type unsafe use where while async await dyn abstract become "
              "box do final macro override priv typeof unsized virtual yield try union".split())


def is_rust_ident(i):
    return is_md_id(i) and i not in RUST_KW


def cap(s):
    return s[:1].upper() + s[1:]


def names_iter(r, prefix=""):
    n = 0
    bare = r.shuffled(["tests", "test", "main", "new", "default", "benches", "f", "drop", "fmt", "mod_", "main_", "inner", "Inner", "T", "imp", "__", "_0", "example", "prelude", "tests_"]) \
        if not prefix else []
    while True:
        n += 1
        if bare and r.p(0.15):
            yield bare.pop()
            continue
        name = prefix + r.pick(["f", "run", "parse", "do_it", "größe", "x", "test_fn", "new", "tests", "main", "drop", "_f", "fmt"]) + "_" + str(n)
        if r.p(0.08):
            # names that differ in case only, or of which one is a prefix of the other
            for t in r.shuffled(["ab", "aB", "a"])[:2]:
                yield name + t
        else:
            yield name


def render_rust(r, path, marks, names, errors=0.0, depth=4, items=None, simple=False):
    g = RustGen(r, path, names, marks, errors, depth, simple)
    if r.p(0.02):
        g.s.bom = "\ufeff"
    if r.p(0.02):
        g.s.w("#!/usr/bin/env -S cargo [x] requirement_covered!(IN_SHEBANG)\n")
    if r.p(0.3):
        g.s.w(r.pick(["//! requirement_covered!(IN_DOC)\n", "#![allow(dead_code)]\n", "// top\n\n"]))
    for _ in range(items if items is not None else r.randint(1, 4)):
        g.nl()
        if g.marks and r.p(0.06):
            g.tower(r.pick([3, 5, 8, 12, 20]))
        else:
            g.item(depth)
    g.rest()
    if r.p(0.8):
        g.s.w("\n")
    return g


def broken_rust(r):
    """(bytes, (line, col) of the error or None): source that is not Rust"""
    return r.pick([b"fn f( {\n", b"fn f() { requirement_covered!(REQ_1); \n", b"struct {", b"}}", b"fn f() { let x = ; }\n",
                   b"\"unterminated\nfn f() {}\n", b"fn 1f() {}\n"])
