"""Error discipline: what a failed external operation turns into at the entry point."""
from ..engine import Plugin
from ..run import engine_runs, engine_coverage

# outcomes that do not have to surface: closing what was only read, removing a temporary file, a missing
# librpm configuration (built-in defaults apply), exec in the child
BENIGN = {"CLOSE", "UNLINK", "CONFIG", "EXEC"}
# probing: "cannot be read" is an answer ("not prelinked"), not an error
def probe(eng, name, args):
    fns = {f.name for f in eng.stack}
    if name in ("pread", "pread64"):
        return "is_prelinked" in fns or args[2] == ("c", 128, 64)
    if name == "waitpid":
        return True        # a child that cannot be waited for: its output is checked instead
    if name == "fstat":
        # size comparison that decides whether to look for prelinking; the rebuilt data is digested anyway
        return eng.active[0] == "drpm_apply"
    return False


class Fail(Plugin):
    def __init__(self):
        self.seen = {}

    def on_ext(self, eng, st, I, name, args, ret, tag):
        if tag.startswith("fail:"):
            cls = tag[5:]
            if cls in BENIGN:
                return
            if probe(eng, name, args):
                return
            k = (name, I.fn.name, I.loc())
            self.seen[k] = cls
            if "f" not in st.ghost:
                st.ghost["f"] = k + (cls, ("val", args[0]) if args and name == "read" else None)
        elif name == "read" and st.ghost.get("f", (0,))[0] == "read" and st.ghost["f"][4] == ("val", args[0]):
            # the same read repeated with success: nothing was lost
            del st.ghost["f"]

    def on_return(self, eng, st, I, v):
        f = st.ghost.get("f")
        if f and f[4] is not None:
            st.ghost["f"] = f[:4] + (None,)

    def ghost_key(self, st):
        return tuple(sorted(k for k in st.ghost))

    def ghost_merge(self, a, b):
        return a if a else b

    def on_root_exit(self, eng, st, v, I, F):
        f = st.ghost.get("f")
        if not f or v is None or v[0] not in ("c", "s", "o") or v[2] != 32:
            return
        r = eng.rng(st, v)
        if r and r[0][0] == 0:
            eng.report("ignored", I, "failing %s() in %s() at %s still ends in DRPM_ERR_OK" % f[:3], key=f, extra=dict(id="ok"))

    def facts(self):
        return sorted(self.seen.items())


def swallowed(ctx):
    res = engine_runs(ctx, Fail, want=lambda r: r["kind"] == "ignored")
    for r in res:
        for rep in r["reports"]:
            ctx.violation("%s:%s" % (rep["root"], rep["msg"].split(" at ")[0].replace(" ", "_")),
                          "%s (configuration %s)" % (rep["text"], rep["cfg"]))
    cov = engine_coverage(ctx, res, "abstract interpretation; every external call that can fail is forked into its "
                          "failing outcome, and the failing path must leave the entry point with a nonzero code")
    sites = {}
    for r in res:
        for k, c in r["facts"]:
            sites.setdefault("%s in %s" % (k[0], k[1]), c)
    cov["failing_call_sites"] = len(sites)
    cov["failing_call_site_list"] = sorted(sites)
    ctx.require(len(sites) > 100, "fewer failing call sites than expected: %d" % len(sites))


CODES = {"MEMORY": {1}, "IO": {3}, "FORMAT": {4}, "NOINSTALL": {10}}


class Kind(Fail):
    """the code names the first failure"""

    def ghost_key(self, st):
        f = st.ghost.get("f")
        return (f[3] if f[3] in CODES else "x") if f else None

    def on_root_exit(self, eng, st, v, I, F):
        f = st.ghost.get("f")
        if not f or v is None or v[0] not in ("c", "s", "o") or v[2] != 32:
            return
        r = eng.rng(st, v)
        want = CODES.get(f[3])
        if want and r and not all(lo == hi and lo in want for lo, hi in r):
            eng.report("class", I, "failing %s() in %s() at %s (%s) " % f[:4] + "ends with %s" % (r,), key=f)
