"""Ownership, null-safety and initialisation verdicts of the abstract interpreter."""
from ..run import engine_runs, engine_coverage
from ..engine import Plugin

HEAP = ("heap", "malloc")
EXPL = ("whole-program abstract interpretation of the -O0 LLVM IR of every source file in both build "
        "configurations, one run per exported function, every external call forked into its documented "
        "outcomes; %s")


def _is_mem(r):
    k = r["extra"].get("kind")
    if k is not None:
        return k in HEAP
    return True


def _key(r):
    s = r["extra"].get("site")
    return "%s:%s:%s" % (r["kind"], r["fn"], s[0] if s else r["msg"].split(" at ")[0].replace(" ", "_"))


def judge(ctx, pred, expl, factory=None, opts=None):
    res = engine_runs(ctx, factory, opts, want=pred)
    for r in res:
        for rep in r["reports"]:
            ctx.violation(_key(rep), "%s (configuration %s, entered through %s)" % (rep["text"], rep["cfg"], rep["root"]))
    cov = engine_coverage(ctx, res, EXPL % expl)
    ctx.require(cov["external_calls"] > 20000 and cov["exits_judged"] > 3000, "fewer paths analysed than expected")
    sites = {}
    for r in res:
        for s in r["sites"]:
            sites.setdefault(r["cfg"], set()).add(s)
    cov["allocation_and_acquisition_sites"] = {c: len(s) for c, s in sites.items()}
    cov["sample_sites"] = {c: sorted(s)[:12] for c, s in sites.items()}
    return res


def heap(ctx):
    judge(ctx, lambda r: r["kind"] in ("leak", "double-free", "bad-free", "use-after-free") and _is_mem(r),
          "rule: each object returned by malloc/calloc/realloc/strdup/librpm allocation is, at every point where its "
          "last reference disappears, already released or owned by a structure handed to the caller; free() "
          "only on live heap objects; no access to a released object")


class Temp(Plugin):
    """temporary files are unlinked before the entry point returns"""

    def on_ext(self, eng, st, I, name, args, ret, tag):
        if name in ("mkstemp", "mkstemp64") and tag == "ok":
            st.ghost["tmp"] = st.ghost.get("tmp", ()) + ((I.fn.name + " at " + I.loc(), ("val", args[0])),)
        elif name in ("unlink", "remove", "unlinkat"):
            a = args[0] if name != "unlinkat" else args[1]
            old = st.ghost.get("tmp", ())
            left = tuple(x for x in old if x[1] != ("val", a))
            if len(left) == len(old):
                eng.report("unlink", I, "%s() of a path that is not a temporary file this call created" % name,
                           extra=dict(kind="tmp"))
            if left:
                st.ghost["tmp"] = left
            else:
                st.ghost.pop("tmp", None)
        elif name in ("_exit", "exit") or tag == "child":
            st.ghost.pop("tmp", None)

    def on_return(self, eng, st, I, v):
        t = st.ghost.get("tmp")
        if t:
            for where, p in t:
                eng.report("leak", I, "the temporary file created by %s is not removed on a path reaching here" % where,
                           key=(where, I.loc()), extra=dict(kind="tmp"))
            st.ghost.pop("tmp", None)


def resources(ctx):
    res = judge(ctx, lambda r: r["kind"] in ("leak", "double-free", "bad-free", "use-after-free", "unlink")
                and not _is_mem(r),
                "rule: each descriptor, stream, child process, temporary file, librpm handle and codec context "
                "acquired on a path is released exactly once on it and not used afterwards", Temp)


def nulls(ctx):
    judge(ctx, lambda r: r["kind"] == "null-deref",
          "rule: no dereference (direct or inside a modelled external) of a pointer that is null on that path: "
          "failed allocations and lookups and NULL arguments included", opts=dict(nulls=1))


def uninit(ctx):
    judge(ctx, lambda r: r["kind"] == "uninit",
          "rule: no branch, dereference, external argument or returned value depends on storage nothing was "
          "written to on that path", opts=dict(undef=1))
