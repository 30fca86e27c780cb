"""Shared machinery of the checks: parallel engine runs, evidence, reporting."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from . import ir
from .engine import Engine
from . import models

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# the exported entry points, slow ones first so that the pool is well filled
BIG = ["drpm_apply", "drpm_make", "drpm_check", "drpm_read", "drpm_check_sequence"]
SMALL = ["drpm_destroy", "drpm_strerror", "drpm_free",
         "drpm_get_uint", "drpm_get_ulong", "drpm_get_ullong", "drpm_get_string", "drpm_get_ulong_array",
         "drpm_make_options_init", "drpm_make_options_destroy", "drpm_make_options_defaults",
         "drpm_make_options_copy", "drpm_make_options_set_type", "drpm_make_options_set_version",
         "drpm_make_options_set_delta_comp", "drpm_make_options_get_delta_comp_from_rpm",
         "drpm_make_options_forbid_addblk", "drpm_make_options_set_addblk_comp",
         "drpm_make_options_set_seqfile", "drpm_make_options_add_patches", "drpm_make_options_set_memlimit"]


class Broken(Exception):
    """the analysis could not be carried out; neither a pass nor a violation"""


class Violation:
    def __init__(self, key, text):
        self.key, self.text = key, text


# checks that follow values through named primitives see helper functions unknown to them inlined
INLINED = ("F", "A03", "C", "P", "X")
SIMPLIFIED = ("F03", "C01")


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.prog = ir.Program(inline=prop.startswith(INLINED), simplify=prop in SIMPLIFIED)
        self.violations = {}
        self.coverage = {}
        self.assumptions = []

    @property
    def configs(self):
        return list(self.prog.mods)

    def violation(self, key, text):
        self.violations.setdefault(key, Violation(key, text))

    def require(self, cond, what):
        if not cond:
            raise Broken(what)


_G = {}


def _task(t):
    k, cfg, root = t
    ctx, factory, opts = _G["a"][0], _G["a"][1], _G["a"][2][k]
    t0 = time.time()
    try:
        plugin = factory() if factory else None
        e = Engine(ctx.prog.mods[cfg], dict(models.MODELS, **getattr(plugin, "models", {})), plugin, opts or {})
        setup = getattr(plugin, "setup", None)
        exits = e.run_root(root, setup)
        reps = [dict(kind=r.kind, fn=r.inst.fn.name, loc=r.inst.loc(), msg=r.msg, stack=r.stack, text=r.text(),
                     extra=r.extra, root=root, cfg=cfg) for r in e.reports.values()]
        out = dict(cfg=cfg, root=root, reports=reps, stats=e.stats, unmodelled=dict(e.unmodelled),
                   fns=sorted(e.fns_seen), exits=len(exits), sites=_sites(e),
                   facts=plugin.facts() if plugin and hasattr(plugin, "facts") else None,
                   wall=round(time.time() - t0, 2))
        return out
    except Exception:
        return dict(cfg=cfg, root=root, error=traceback.format_exc())


def _sites(e):
    return sorted("%s:%s" % k if isinstance(k, tuple) and len(k) == 2 else str(k) for k in e.sites)


# successive precision settings.  Each is an over-approximation with a different partitioning of the paths, so
# only what all of them report is a violation
STAGES = [dict(caps=(4, 4, 4)), dict(caps=(8, 8, 8)), dict(caps=(8, 8, 8), cond=1)]


def rep_id(r):
    s = r["extra"].get("site")
    if r["extra"].get("id") is not None:
        return (r["cfg"], r["root"], r["kind"], r["extra"]["id"])
    if s:
        return (r["cfg"], r["root"], r["kind"], s)
    return (r["cfg"], r["root"], r["kind"], r["fn"], r["loc"])


def engine_runs(ctx, factory=None, opts=None, roots=None, configs=None, want=None, stages=None):
    """run the abstract interpreter from the given entry points under every build configuration; the reports
    selected by want() are confirmed at every precision setting"""
    roots = roots or BIG + SMALL
    configs = configs or ctx.configs
    for c in configs:
        for r in roots:
            if r not in ctx.prog.mods[c].fns:
                raise Broken("entry point %s() is not defined in configuration %s" % (r, c))
    todo = [(c, r) for r in roots for c in configs]
    stages = stages or STAGES
    t0 = time.time()
    res = _runs(ctx, factory, [dict(opts or {}, **stages[0])], todo, t0)[0]
    ctx.stage_runs = [dict(setting=str(stages[0]), runs=len(todo), completed=len(res))]
    for r in res:
        r["reports"] = [x for x in r["reports"] if want is None or want(x)]
    todo = [(r["cfg"], r["root"]) for r in res if r["reports"]]
    if todo and stages[1:]:
        more = _runs(ctx, factory, [dict(opts or {}, **s) for s in stages[1:]], todo, time.time(), 1)
        for stage, again in zip(stages[1:], more):
            ctx.stage_runs.append(dict(setting=str(stage), runs=len(todo), completed=len(again)))
            got = {(r["cfg"], r["root"]): {rep_id(x) for x in r["reports"]} for r in again}
            for r in res:
                if (r["cfg"], r["root"]) in got:
                    r["reports"] = [x for x in r["reports"] if rep_id(x) in got[(r["cfg"], r["root"])]]
    return res


def _runs(ctx, factory, optss, tasks, t0, confirm=0):
    """results for each of the settings"""
    _G["a"] = (ctx, factory, optss)
    # the first stage must be complete; a later one that is not neither confirms nor refutes anything
    lim = int(os.environ.get("SA_TASK_LIMIT", "840")) if not confirm else 150
    res = [[] for _ in optss]
    pool = mp.get_context("fork").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=None)
    try:
        it = [(k, t, pool.apply_async(_task, ((k,) + t,))) for t in tasks for k in range(len(optss))]
        for k, t, a in it:
            try:
                res[k].append(a.get(max(1, lim - (time.time() - t0))))
            except mp.TimeoutError:
                if confirm:
                    continue
                raise Broken("analysis of %s() [%s] did not finish in time" % (t[1], t[0]))
        pool.close()
    finally:
        pool.terminate()
    if confirm:
        return [[r for r in x if "error" not in r] for x in res]
    for r in res[0]:
        if "error" in r:
            raise Broken("analysis of %s() [%s] failed:\n%s" % (r["root"], r["cfg"], r["error"]))
    return res


def _part(t):
    ctx, fn, item = _G["p"][0], _G["p"][1], _G["p"][2][t]
    sub = Ctx.__new__(Ctx)
    sub.prop, sub.tier, sub.prog = ctx.prop, ctx.tier, ctx.prog
    sub.violations, sub.coverage, sub.assumptions = {}, {}, []
    try:
        fn(sub, *item)
        return dict(v=[(v.key, v.text) for v in sub.violations.values()], c=sub.coverage)
    except (Broken, ir.AnalysisError) as x:
        return dict(broken=str(x))
    except Exception:
        return dict(broken=traceback.format_exc())


def parallel(ctx, fn, items):
    """fn(subctx, *item) for each item in worker processes; violations are collected, counts added up"""
    items = list(items)
    _G["p"] = (ctx, fn, items)
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_part, range(len(items)), 1)
    for r in res:
        if "broken" in r:
            raise Broken(r["broken"])
        for k, t in r["v"]:
            ctx.violation(k, t)
        for k, x in r["c"].items():
            if isinstance(x, set):
                ctx.coverage.setdefault(k, set()).update(x)
            elif isinstance(x, (int, float)):
                ctx.coverage[k] = ctx.coverage.get(k, 0) + x
            elif isinstance(x, list):
                ctx.coverage[k] = sorted(set(ctx.coverage.get(k, [])) | set(x))
            else:
                ctx.coverage[k] = x


def engine_coverage(ctx, res, explanation):
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    fns = {}
    for r in res:
        fns.setdefault(r["cfg"], set()).update(r["fns"])
    un = {}
    for r in res:
        un.update(r["unmodelled"])
    ctx.coverage.update(
        explanation=explanation,
        configurations=sorted(fns),
        entry_points=sorted(set(r["root"] for r in res)),
        entry_point_runs=len(res),
        functions_analysed={c: len(f) for c, f in fns.items()},
        functions_not_reached={c: sorted(set(ctx.prog.mods[c].fns) - f) for c, f in fns.items()},
        calling_contexts=tot.get("contexts", 0), abstract_blocks_executed=tot.get("blocks", 0),
        calls=tot.get("calls", 0), external_calls=tot.get("extcalls", 0), exits_judged=tot.get("exits", 0),
        externals_without_model=sorted(un), precision_stages=ctx.stage_runs)
    return ctx.coverage


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = l[7:].split(None, 2)
                if f[0] == "property=" + prop:
                    out[f[1][len("key="):]] = f[2] if len(f) > 2 else ""
    return out


def main(argv):
    from .props import REGISTRY
    if argv[1] == "--selftest":
        p = ir.Program()
        print("compiled %s" % {c: len(m.fns) for c, m in p.mods.items()})
        return 0
    prop = argv[1]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    path = os.path.join(ev, prop + ".json")
    replay = os.path.join(ev, prop + ".report.txt")
    for f in (path, replay):
        if os.path.exists(f):
            os.unlink(f)
    try:
        ctx = Ctx(prop, tier)
        REGISTRY[prop](ctx)
    except (Broken, ir.AnalysisError) as x:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, x))
        return 2
    known = load_known(prop)
    new = [v for v in ctx.violations.values() if v.key not in known]
    old = [v for v in ctx.violations.values() if v.key in known]
    doc = dict(property=prop, tier=tier, seed=seed, level="other", coverage=ctx.coverage,
               assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    doc["coverage"].setdefault("explanation", "")
    doc["coverage"]["known_findings"] = sorted(v.key for v in old)
    doc["coverage"]["compiled"] = {c: sorted(m.sources) if hasattr(m, "sources") else []
                                   for c, m in ctx.prog.mods.items()}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[v.key] or v.text))
    if new:
        with open(replay, "w") as f:
            for v in new:
                f.write("%s\n    key=%s\n" % (v.text, v.key))
        for v in new[:40]:
            print(v.text)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, VERIF)))
        return 1
    print("%s: held; %s" % (prop, {k: v for k, v in ctx.coverage.items() if isinstance(v, (int, float))}))
    return 0
