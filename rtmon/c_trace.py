"""Monitors of the tracing result: C01-C06."""
import os
from util import *
from world import *
import gen


def base_args(r, d, name="w"):
    """(root, cwd, args): the same project reached in different ways"""
    root = os.path.join(d, name)
    k = r.randrange(4)
    if k == 0:
        return root, root, []
    if k == 1:
        return root, d, ["-b", root, "-c", os.path.join(root, "requirements.toml")]
    if k == 2:
        return root, d, ["-b", name, "-c", name + "/requirements.toml"]
    return root, root, ["--base", "./", "--config", "requirements.toml"]


def traced(r, d, w, jobs=(TRACE_JSON,)):
    root, cwd, args = base_args(r, d)
    w.write(root, jobs)
    run = run_cli(args + [j.name for j in jobs], cwd)
    if run.crashed() or run.rc not in (0, 1):
        raise Violation("no trace: " + run.describe())
    obs = observe_trace(os.path.join(root, "out/trace.json"), run, cwd)
    return obs, Expect(w, root, cwd), run


def world_sample(w, obs):
    return "artefacts %s; relations %s; %d covered, %d uncovered" % (
        [(a.id, a.parser, [q["id"] for q in a.found][:6]) for a in w.arts], w.rels, obs.n_covered,
        sum(len(x) for x in obs.uncovered.values()))


def check_relations_listed(w, obs):
    diff_eq("relations of the trace", sorted((u, tuple(ls)) for u, ls in w.rels), sorted(obs.rels))


def count_world(ctx, w, obs, exp):
    ctx.count("requirements", sum(len(k) for k in exp.kept.values()))
    ctx.count("relations", len(w.rels))
    ctx.count("coverages", obs.n_covered)
    for a in w.arts:
        ctx.count("artefacts_" + a.parser)


def trace_opts(r, ctx, **kw):
    if ctx.tier == "thorough" and r.p(0.03) or r.p(0.004):
        return Opts(big=True, **kw)
    if r.p(0.006):
        ctx.count("wide_projects")
        return Opts(wide=True, **kw)
    kw.setdefault("empty_id", r.p(0.05))
    return Opts(**kw)


def c01(r, d, ctx, k):
    w = make_world(r, trace_opts(r, ctx, link=r.pick([None, 0.3, 0.7])))
    obs, exp, run = traced(r, d, w)
    check_relations_listed(w, obs)
    n = 0
    for num, ((u, ls), cov) in enumerate(zip(w.rels, exp.covered)):
        got = obs.covered[(u, tuple(ls))]
        diff_sets("coverage along %s => %s" % (u, ls), cov, got)
        # every reference once, even if it repeats another
        diff_eq("coverage along %s => %s with number of references" % (u, ls), exp.times_covered[num], obs.times_covered[(u, tuple(ls))])
        n += len(cov)
        ctx.count("repeated_references", sum(v - 1 for v in exp.times_covered[num].values()))
        ctx.count("up", sum(1 for c in cov if c[2] == "Upwards"))
        ctx.count("down", sum(1 for c in cov if c[2] == "Downwards"))
        pairs = {}
        for c in cov:
            pairs.setdefault(c[:2], set()).add(c[2])
        ctx.count("claimed_in_both_directions", sum(1 for v in pairs.values() if len(v) == 2))
        if len(ls) > 1:
            ctx.count("relations_with_several_lower")
    count_world(ctx, w, obs, exp)
    ctx.saw(w.digest(), n > 0)
    if n and k < 40:
        ctx.sample(world_sample(w, obs))


def c02(r, d, ctx, k):
    w = make_world(r, trace_opts(r, ctx))
    obs, exp, run = traced(r, d, w)
    check_relations_listed(w, obs)
    elsewhere = 0
    all_cov = set()
    for cov in exp.covered:
        all_cov |= {c[0] for c in cov}
    for (u, ls), unc in zip(w.rels, exp.uncovered):
        got = obs.uncovered[(u, tuple(ls))]
        diff_sets("uncovered along %s => %s" % (u, ls), unc, got)
        if len(got) != len(set(got)):
            raise Violation("uncovered along %s => %s listed twice: %r" % (u, ls, got))
        ctx.count("uncovered", len(unc))
        elsewhere += len(unc & all_cov)
        ctx.count("covered", len(exp.kept[u]) - len(unc))
    ctx.count("uncovered_but_covered_along_another_relation", elsewhere)
    count_world(ctx, w, obs, exp)
    ctx.saw(w.digest(), any(exp.uncovered))
    if any(exp.uncovered) and k < 40:
        ctx.sample(world_sample(w, obs) + " uncovered: %r" % [sorted(x)[:5] for x in exp.uncovered])


def c03(r, d, ctx, k):
    w = make_world(r, trace_opts(r, ctx))
    for a in w.arts:
        if r.p(0.3):
            a.ignore = r.pick([None, True, False])
    obs, exp, run = traced(r, d, w)
    for a in w.arts:
        got = obs.derived.get(a.id, [])
        diff_sets("derived requirements of %s" % a.id, exp.derived[a.id], got)
        if len(got) != len(set(got)):
            raise Violation("derived of %s listed twice: %r" % (a.id, got))
        diff_eq("exemption of %s" % a.id, exp.ignore[a.id], obs.t["artefacts"][a.id]["ignore_derived_requirements"])
        ctx.count("derived", len(exp.derived[a.id]))
        ctx.count("setting_%s_%s" % (a.ignore, "lower" if any(a.id in ls for _, ls in w.rels) else "root"))
    diff_sets("artefacts with derived requirements", {i for i, s in exp.derived.items() if s}, {i for i, s in obs.derived.items() if s})
    count_world(ctx, w, obs, exp)
    ctx.saw(w.digest(), exp.any_derived)
    if exp.any_derived and k < 40:
        ctx.sample("derived %r" % {a: sorted(s)[:5] for a, s in exp.derived.items() if s})


def dangling(obs, kind, cwd):
    res = {}
    for req, tid, loc in obs.kinds.get(kind, []):
        key = (req["id"], tid)
        if key in res:
            raise Violation("%s reported twice for %r" % (kind, key))
        res[key] = norm_loc(loc, cwd)
    return res


def c04(r, d, ctx, k):
    w = make_world(r, trace_opts(r, ctx, noise=r.pick([None, 0.1, 0.3, 0.5])))
    obs, exp, run = traced(r, d, w)
    for kind, want in (("CoversUnknownRequirement", exp.bad_covers), ("DependOnUnknownRequirement", exp.bad_depends)):
        got = dangling(obs, kind, exp.cwd)
        diff_sets(kind, want, got)
        for key, loc in got.items():
            if loc not in want[key]:
                raise Violation("%s %r reported at %r, the references are at %r" % (kind, key, loc, want[key]))
        ctx.count(kind, len(want))
    ids = set(exp.owner)
    ctx.count("target_exists_elsewhere", sum(1 for (_, t) in list(exp.bad_covers) + list(exp.bad_depends) if t in ids))
    low = {i.lower() for i in ids}
    ctx.count("target_differs_in_case", sum(1 for (_, t) in list(exp.bad_covers) + list(exp.bad_depends) if t not in ids and t.lower() in low))
    count_world(ctx, w, obs, exp)
    nt = bool(exp.bad_covers or exp.bad_depends)
    ctx.saw(w.digest(), nt)
    if nt and k < 40:
        ctx.sample("dangling covers %r depends %r" % (sorted(exp.bad_covers)[:4], sorted(exp.bad_depends)[:4]))


def c05(r, d, ctx, k):
    w = make_world(r, trace_opts(r, ctx, link=r.pick([0.2, 0.5, 0.9]), wrong_title=r.pick([0, 0.1, 0.3, 0.6])))
    for a in w.arts:
        if r.p(0.3):
            a.with_title = r.pick([None, True, False])
    obs, exp, run = traced(r, d, w)
    cwd = exp.cwd
    got = {(e["upper"]["id"], e["lower"]["id"], e["wrong_title"], norm_loc(e["location"], cwd)) for e in obs.kinds.get("CoveredWithWrongTitle", [])}
    diff_sets("covered with wrong title", exp.wrong_cover, got)
    got = {(e["upper"]["id"], e["lower"]["id"], e["wrong_title"], norm_loc(e["location"], cwd)) for e in obs.kinds.get("DependWithWrongTitle", [])}
    diff_sets("depended with wrong title", exp.wrong_depend, got)
    # the error carries the requirement with its real title
    for kind in ("CoveredWithWrongTitle", "DependWithWrongTitle"):
        for e in obs.kinds.get(kind, []):
            for side in ("upper", "lower"):
                q = e[side]
                real = exp.kept[exp.owner[q["id"]]][q["id"]]["title"]
                diff_eq("title of %s in %s" % (q["id"], kind), real, q["title"])
    got = {(e["referenced"]["id"], norm_loc(e["location"], cwd)) for e in obs.kinds.get("ReferencedWithoutTitle", [])}
    diff_sets("referenced without title", exp.no_title, got)
    for a in w.arts:
        got = {q["id"] for q in obs.art_kinds[a.id].get("RequirementWithoutTitle", [])}
        diff_sets("requirements without title in %s" % a.id, exp.untitled[a.id], got)
        ctx.count("requirement_without_title", len(got))
    # titles do not influence coverage
    for (u, ls), cov in zip(w.rels, exp.covered):
        diff_sets("coverage along %s => %s" % (u, ls), cov, obs.covered[(u, tuple(ls))])
        diff_sets("uncovered along %s => %s" % (u, ls), exp.uncovered[w.rels.index((u, ls))], obs.uncovered[(u, tuple(ls))])
    ctx.count("wrong_cover", len(exp.wrong_cover))
    ctx.count("wrong_depend", len(exp.wrong_depend))
    ctx.count("without_title", len(exp.no_title))
    ctx.count("right_title", 1 if not exp.wrong_cover | exp.wrong_depend and obs.n_covered else 0)
    count_world(ctx, w, obs, exp)
    nt = bool(exp.wrong_cover or exp.wrong_depend or exp.no_title)
    ctx.saw(w.digest(), nt)
    if nt and k < 40:
        ctx.sample("wrong titles %r" % (sorted(exp.wrong_cover, key=repr)[:2] + sorted(exp.wrong_depend, key=repr)[:2]))


def more_duplicates(r, w, ctx):
    """further definitions in formats that define an id by file name or by scope"""
    if r.p(0.2):
        for a in w.arts:
            if a.parser == "Rust" and a.found and a.paths == a.files:
                src = r.pick(a.files)
                for n in range(r.pick([1, 1, 2])):
                    new = os.path.dirname(src) + "/copy%d.rs" % n
                    w.files[new] = w.files[src]
                    at = r.randint(0, len(a.files))
                    per = {f: [q for q in a.found if q["location"]["file"] == gen.REL + f] for f in a.files}

                    def moved(o):
                        if isinstance(o, dict):
                            return {x: moved(v) for x, v in o.items()}
                        if isinstance(o, list):
                            return [moved(v) for v in o]
                        return gen.REL + new if o == gen.REL + src else o
                    per[new] = moved(per[src])
                    a.files = a.files[:at] + [new] + a.files[at:]
                    a.paths = list(a.files)
                    a.found = [q for f in a.files for q in per[f]]
                    ctx.count("rust_file_twice")
    ids = sorted({q["id"] for a in w.arts for q in a.found})
    if ids and r.p(0.2):
        i = r.pick(ids)
        if gen.is_md_id(i) and len(i.encode()) < 200:
            a = Art(r.pick(["0first", "mid", "zzlast"]), "MonoRequirement")
            f = "mono_dup/" + i + ".txt"
            w.files[f], e, _ = gen.render_mono(r, f, AReq(i, "Title"))
            a.paths, a.files, a.found = [f], [f], [e]
            w.arts.append(a)
            ctx.count("mono_duplicates_id")
    if ids and r.p(0.2):
        a = Art(r.pick(["00first", "midd", "zzzlast"]), "Json")
        qs = [gen.json_req(r, AReq(i, "Title")) for i in r.some(ids, 0.3) or [r.pick(ids)]]
        f = "json_dup.json"
        w.files[f] = gen.render_json(r, qs)
        a.paths, a.files, a.found = [f], [f], qs
        w.arts.append(a)
        ctx.count("json_duplicates_ids")


def c06(r, d, ctx, k):
    w = make_world(r, trace_opts(r, ctx, dups=r.pick([0.0, 0.05, 0.15, 0.4]),
                                 parsers=[("Markdown", 5), ("Json", 5), ("Rust", 1), ("MonoRequirement", 0.5)]))
    more_duplicates(r, w, ctx)
    obs, exp, run = traced(r, d, w)
    cwd = exp.cwd
    L = exp.L
    # within an artefact
    for a in w.arts:
        want = Counter()
        for art, first, q in exp.dup_within:
            if art == a.id:
                want[(q["id"], frozenset([L(first["location"]), L(q["location"])]))] += 1
        got = Counter()
        for q1, q2 in obs.art_kinds[a.id].get("DuplicateRequirement", []):
            if q1["id"] != q2["id"]:
                raise Violation("duplicate error for two different ids %r %r" % (q1["id"], q2["id"]))
            got[(q1["id"], frozenset([norm_loc(q1["location"], cwd), norm_loc(q2["location"], cwd)]))] += 1
        diff_eq("duplicates in %s" % a.id, want, got)
        ctx.count("dup_within", sum(want.values()))
        # the first definition is kept
        kept = obs.t["artefacts"][a.id]["requirements"]
        diff_sets("requirement ids of %s" % a.id, exp.kept[a.id], kept)
        fix = w.absolute(exp.root)
        for i, q in exp.kept[a.id].items():
            n = 7 if a.parser == "Json" else 3          # content of other formats is another property's concern
            diff_eq("kept definition of %s in %s" % (i, a.id), norm_req(fix(q), cwd)[:n], norm_req(kept[i], cwd)[:n])
    # across artefacts
    want = Counter((i, frozenset([L(exp.kept[o][i]["location"]), L(exp.kept[x][i]["location"])])) for i, o, x in exp.dup_across)
    got = Counter()
    for q1, q2 in obs.kinds.get("DuplicateRequirement", []):
        if q1["id"] != q2["id"]:
            raise Violation("duplicate error for two different ids %r %r" % (q1["id"], q2["id"]))
        got[(q1["id"], frozenset([norm_loc(q1["location"], cwd), norm_loc(q2["location"], cwd)]))] += 1
    diff_eq("duplicates across artefacts", want, got)
    ctx.count("dup_across", sum(want.values()))
    # results of other ids are as expected
    dup = {i for i, _, _ in exp.dup_across}
    for n, (u, ls) in enumerate(w.rels):
        key = (u, tuple(ls))
        f = lambda s: {c for c in s if c[0] not in dup and c[1] not in dup}
        diff_sets("coverage between unique ids along %s => %s" % key, f(exp.covered[n]), f(obs.covered[key]))
        hit_by_dup = {c[0] for c in exp.covered[n] | obs.covered[key] if c[1] in dup}
        g = lambda s: {i for i in s if i not in dup and i not in hit_by_dup}
        diff_sets("uncovered unique ids along %s => %s" % key, g(exp.uncovered[n]), g(obs.uncovered[key]))
    touched = {c[1] for s in list(exp.covered) + list(obs.covered.values()) for c in s if c[0] in dup}
    for a in w.arts:
        g = lambda s: {i for i in s if i not in dup and i not in touched}
        diff_sets("derived unique ids of %s" % a.id, g(exp.derived[a.id]), g(obs.derived.get(a.id, [])))
    for kind, bad in (("CoversUnknownRequirement", exp.bad_covers), ("DependOnUnknownRequirement", exp.bad_depends)):
        got = dangling(obs, kind, cwd)
        g = lambda s: {x for x in s if x[0] not in dup and x[1] not in dup}
        diff_sets(kind + " between unique ids", g(bad), g(got))
    count_world(ctx, w, obs, exp)
    ids = [i for kept in exp.kept.values() for i in kept]
    low = Counter(i.lower() for i in set(ids))
    ctx.count("ids_that_differ_only_in_case", sum(1 for v in low.values() if v > 1))
    ctx.saw(w.digest(), bool(exp.dup_within or exp.dup_across))
    if (exp.dup_within or exp.dup_across) and k < 60:
        ctx.sample("within %r across %r" % ([(a, q["id"]) for a, _, q in exp.dup_within][:5], exp.dup_across[:5]))


RULE = ("random projects (1-7 artefacts of all four formats rendered to files, random acyclic relations, references in both "
        "directions with exact, near-miss and missing targets and titles) run through the real command line tool; the reported "
        "trace is compared with an independent reference model. Non-trivial: ")
ASSUME = ["the reference model in rtmon/world.py states the documented meaning of tracing",
          "generated files cover only the documented input syntax"]


def chk(f, quick, thorough, rule, need, **kw):
    d = {"case": f, "quick": quick, "thorough": thorough, "rule": RULE + rule, "need": need, "assumptions": ASSUME}
    d.update(kw)
    return d


CHECKS = {
    "C01": chk(c01, 14000, 200000, "at least one coverage was expected.", {"up": 100, "down": 100, "claimed_in_both_directions": 10, "relations_with_several_lower": 10}),
    "C02": chk(c02, 14000, 200000, "at least one requirement is uncovered.", {"uncovered": 100, "covered": 100, "uncovered_but_covered_along_another_relation": 10}),
    "C03": chk(c03, 14000, 200000, "at least one requirement is derived.", {"derived": 100}),
    "C04": chk(c04, 14000, 200000, "at least one reference leads nowhere.", {"CoversUnknownRequirement": 100, "DependOnUnknownRequirement": 100, "target_exists_elsewhere": 20, "target_differs_in_case": 5}),
    "C05": chk(c05, 14000, 200000, "at least one title is wrong or missing where demanded.", {"wrong_cover": 50, "wrong_depend": 50, "without_title": 50, "requirement_without_title": 10}),
    "C06": chk(c06, 14000, 200000, "at least one id is defined more than once.", {"dup_within": 50, "dup_across": 50, "ids_that_differ_only_in_case": 10}),
}
