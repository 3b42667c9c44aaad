"""seeds.py DIR N: writes N seed inputs for the fuzz target, made by the generators of the monitors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rtmon"))
from util import Rng
from world import make_world, Opts
from c_parse import md_with_errors

KIND = {"Markdown": b"\x00", "MonoRequirement": b"\x01", "Rust": b"\x02", "Json": b"\x03"}
out, n = sys.argv[1], int(sys.argv[2])
os.makedirs(out, exist_ok=True)
for k in range(n):
    r = Rng(k)
    w = make_world(r, Opts(n_arts=[(1, 2), (2, 3), (3, 2)], n_reqs=[(1, 3), (3, 2)], dups=r.pick([0.0, 0.3])))
    parts = [KIND[a.parser] + w.files[a.files[0]].replace(b"\x1e", b"") for a in sorted(w.arts, key=lambda a: a.rank) if a.files and len(w.files[a.files[0]]) < 6000]
    if r.p(0.2):
        parts.append(b"\x00" + md_with_errors(r, "x.md", 3, set())[0].render())
    with open(os.path.join(out, "s%05d" % k), "wb") as h:
        h.write(b"\x1e".join(parts))
