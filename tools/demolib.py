import json, os, shutil, subprocess, sys, tempfile
BIN = os.path.abspath(sys.argv[1])
D = tempfile.mkdtemp(prefix="demo.")


def done(ok, msg=""):
    shutil.rmtree(D, ignore_errors=True)
    if not ok:
        print("BROKEN:", msg)
    sys.exit(0 if ok else 1)


def put(name, data):
    p = os.path.join(D, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as h:
        h.write(data if isinstance(data, bytes) else data.encode())


def arts(*a):
    """(id, parser, [paths], extra lines)"""
    return "".join("[[artefacts]]\nid = \"%s\"\nparser = \"%s\"\npaths = %s\n%s\n" % (x[0], x[1], json.dumps(x[2]), x[3] if len(x) > 3 else "") for x in a)


def rels(*a):
    return "".join("[[relations]]\nupper = \"%s\"\nlower = %s\n" % (u, json.dumps(l)) for u, l in a) if a else ""


def jobs(*a):
    """(name, query, format, file, extra)"""
    return "".join("[jobs.%s]\nquery = \"%s\"\nformat = \"%s\"\nfile = \"%s\"\n%s\n" % (x[0], x[1], x[2], x[3], x[4] if len(x) > 4 else "") for x in a)


def conf(a, r, j, head=""):
    put("requirements.toml", head + ("" if r else "relations = []\n") + a + r + j)


def run(*args, **kw):
    return subprocess.run([BIN, "-l", "off"] + list(args), cwd=D, capture_output=True, timeout=60, **kw)


def read(name):
    with open(os.path.join(D, name), "rb") as h:
        return h.read().decode("utf-8", "replace")


def trace(*args):
    run("tj", *args)
    return json.loads(read("t.json"))["trace"]


def parsed(*args):
    run("pj", *args)
    return json.loads(read("p.json"))


TJ = ("tj", "Trace", "Json", "t.json")
PJ = ("pj", "Parse", "Json", "p.json")


def jreq(id, title=None, covers=(), depends=(), file="x", line=1, tags=(), attrs=None):
    ref = lambda c: {"id": c[0], "title": c[1], "location": {"file": file, "location_in_file": {"Line": c[2] if len(c) > 2 else 1}}}
    return {"id": id, "title": title, "location": {"file": file, "location_in_file": {"Line": line}}, "covers": [ref(c) for c in covers],
            "depends": [ref(c) for c in depends], "tags": list(tags), "attributes": attrs or {}}
