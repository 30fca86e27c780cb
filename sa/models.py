"""Models of the external functions libdrpm calls: outcomes, resource effects, memory effects.

A model returns a list of (state, value, tag); tag is "ok" or "fail:<class>" where class is the
kind of failure (MEMORY, IO, FORMAT, OTHER, CONFIG) the outcome stands for, or "short" for a
read that returns fewer bytes than asked for."""
from .engine import c_, BAD as NULL, UNDEF, full, r_compl, Obj, cmp_set, width, lin

NEG = ((1 << 31, (1 << 32) - 1),)
NONNEG = ((0, (1 << 31) - 1),)
NZ64 = ((1, (1 << 64) - 1),)


def fork(st, n):
    return [st] + [st.copy() for _ in range(n - 1)]


def f32(v):
    return c_(v, 32)


def sym(e, st, I, r=None, w=None):
    return e.fresh(st, ("i", I.id), w or I.w, r)


def deref(e, st, p, I, what):
    e.target(st, p, I, what)
    return not st.dead


# ------------------------------------------------------------------ allocation
def m_malloc(e, st, I, a):
    n = a[0]
    f = st.copy()
    return [(st, e.newobj(st, I, "malloc", "undef", n), "ok"), (f, NULL, "fail:MEMORY")]


def m_calloc(e, st, I, a):
    f = st.copy()
    n = e.binop(st, I, "mul", 64, a[0], a[1]) if a[0][0] == "c" or a[1][0] == "c" else \
        ("o", "mul", 64, a[0], a[1])
    return [(st, e.newobj(st, I, "malloc", "zero", n), "ok"), (f, NULL, "fail:MEMORY")]


def heap_release(e, st, I, p, kind, what):
    """common part of free()/close()-like calls"""
    k = p[0]
    if k == "c":
        return True
    if k == "p":
        o = st.mem.get(p[1])
        if o is None:
            return True
        if o.status == "freed" and not o.summ:
            e.report("double-free", I, "%s() of %s, already released" % (what, e.oname(o)), extra=dict(kind=kind))
            st.dead = True
            return False
        if o.kind in ("alloca", "global") and kind == "heap":
            e.report("bad-free", I, "%s() of memory that is not on the heap" % what, extra=dict(kind=kind))
            st.dead = True
            return False
        if o.kind not in (kind, "ext", "param") and o.site:
            e.report("bad-free", I, "%s() of %s" % (what, e.oname(o)), extra=dict(kind=kind))
            st.dead = True
            return False
        if kind == "heap" and p[2] != 0 and o.site:
            e.report("bad-free", I, "%s() of a pointer into the middle of %s" % (what, e.oname(o)))
            st.dead = True
            return False
        if o.summ:
            return True
        o = st.wobj(p[1])
        o.status = "freed"
        o.fields = {}
        return True
    if k == "s":
        oid = ("D", p[1])
        o = st.mem.get(oid)
        if o is not None and o.status == "freed":
            e.report("double-free", I, "%s() of memory already released" % what, extra=dict(kind=kind))
            st.dead = True
            return False
        if o is None:
            st.mem[oid] = o = Obj("ext", "sym")
        if e.rng(st, p) == ((0, 0),):
            return True
        # recency summaries of array elements can be released many times
        if p[1][0] == "old":
            return True
        o = st.wobj(oid)
        o.status = "freed"
        o.fields = {}
    return True


def m_free(e, st, I, a):
    heap_release(e, st, I, a[0], "heap", "free")
    return [(st, None, "ok")]


def m_realloc(e, st, I, a):
    p, n = a
    f = st.copy()
    ok = st
    od = None
    if p[0] == "p":
        o = ok.mem.get(p[1])
        if o is not None:
            if o.status == "freed":
                e.report("use-after-free", I, "realloc() of released memory")
                return []
            if o.kind not in ("heap", "ext", "param") or (p[2] != 0 and o.site):
                e.report("bad-free", I, "realloc() of a pointer that malloc() did not return")
                return []
            od = o
    elif p[0] == "s":
        od = ok.mem.get(("D", p[1]))
        if od is not None and od.status == "freed":
            e.report("use-after-free", I, "realloc() of released memory")
            return []
    fields = dict(od.fields) if od is not None else {}
    df = od.default if od is not None else ("undef" if p[:2] == NULL[:2] else "sym")
    summ = od.summ if od is not None else False
    struct = od.struct if od is not None else None
    if not heap_release(e, ok, I, p, "heap", "realloc"):
        return []
    # the released block is gone for good: it does not linger as "freed" when it is the only name
    v = e.newobj(ok, I, "malloc", "undef" if df == "undef" else "sym", n)
    no = ok.wobj(v[1])
    no.fields = fields
    no.struct = struct
    if df == "zero":
        no.default = "sym"
    return [(ok, v, "ok"), (f, NULL, "fail:MEMORY")]


# ------------------------------------------------------------------ descriptors
def _open(kindname="fd"):
    def m(e, st, I, a):
        f = st.copy()
        v = e.newobj(st, I, "fd", "sym")
        if I.callee[1].startswith("creat") or len(a) > 1 and a[1][0] == "c" and a[1][1] & 3:
            st.wobj(v[1]).struct = "wfd"
        return [(st, v, "ok"), (f, f32(-1), "fail:IO")]
    return m


def m_close(e, st, I, a):
    p = a[0]
    o = st.mem.get(p[1]) if p[0] == "p" else st.mem.get(("D", p[1])) if p[0] == "s" else None
    cls = "fail:IO" if o is not None and o.struct == "wfd" else "fail:CLOSE"
    if p[0] == "p" or p[0] == "s" and ("D", p[1]) in st.mem and e.rng(st, p) != ((0xffffffff, 0xffffffff),):
        if not heap_release(e, st, I, p, "fd", "close"):
            return []
    f = st.copy()
    return [(st, f32(0), "ok"), (f, f32(-1), cls)]


def chkfd(e, st, I, p, what):
    if p[0] == "p" or p[0] == "s":
        o = st.mem.get(p[1] if p[0] == "p" else ("D", p[1]))
        if o is not None and o.status == "freed":
            e.report("use-after-free", I, "%s() on a closed descriptor (%s)" % (what, e.oname(o)), extra=dict(kind="fd"))
            st.dead = True
            return False
    return True


def m_read(e, st, I, a):
    if not chkfd(e, st, I, a[0], "read"):
        return []
    f = st.copy()
    n = a[2]
    e.clobber(st, a[1], I, 0, n[1] if n[0] == "c" else None)
    if st.dead:
        return []
    sh = st.copy()
    v = sym(e, sh, I, None)
    r = e.rng(sh, n)
    hi = r[-1][1] if r else (1 << 63)
    e.assume(f, "ne", n, c_(-1, 64))
    out = [(st, n, "ok"), (f, c_(-1, 64), "fail:IO")]
    if hi > 0 and e.refine(sh, v, ((0, min(hi - 1, (1 << 63) - 1)),)) and e.assume(sh, "ult", v, n) and \
            e.assume(sh, "ne", v, n) is not False:
        out.append((sh, v, "short"))
    return out


def m_write(e, st, I, a):
    if not chkfd(e, st, I, a[0], "write"):
        return []
    rdbuf(e, st, I, a[1], "write")
    if st.dead:
        return []
    n = a[2]
    f = st.copy()
    sh = st.copy()
    v = sym(e, sh, I, None)
    r = e.rng(sh, n)
    hi = r[-1][1] if r else (1 << 63)
    e.assume(f, "ne", n, c_(-1, 64))
    out = [(st, n, "ok"), (f, c_(-1, 64), "fail:IO")]
    if hi > 0 and e.refine(sh, v, ((0, min(hi - 1, (1 << 63) - 1)),)) and e.assume(sh, "ult", v, n) and \
            e.assume(sh, "ne", v, n) is not False:
        out.append((sh, v, "fail:IO"))
    return out


def rdbuf(e, st, I, p, what):
    t = e.target(st, p, I, what + " buffer read")
    if st.dead or t is None:
        return
    o = st.mem.get(t[0])
    if o is not None and o.default == "undef" and not o.fields and o.kind in ("alloca", "heap") and not o.summ:
        if o.size is not None and o.size[0] == "c" and o.size[1] == 0:
            return
        e.report("uninit", I, "%s reads a buffer nothing was ever stored in (%s)" % (what, e.oname(o)))


def m_lseek(e, st, I, a):
    if not chkfd(e, st, I, a[0], "lseek"):
        return []
    f = st.copy()
    out = []
    if e.assume(f, "ne", a[1], c_(-1, 64)) is not False:
        out.append((f, c_(-1, 64), "fail:IO"))
    if a[2][0] == "c" and a[2][1] == 0 and a[1][0] != "c":
        if e.refine(st, a[1], ((0, (1 << 63) - 1),)):
            out.insert(0, (st, a[1], "ok"))
        return out
    return [(st, sym(e, st, I, ((0, (1 << 63) - 1),)), "ok")] + out


def m_stat(e, st, I, a):
    if I.callee[1] == "fstat" and not chkfd(e, st, I, a[0], "fstat"):
        return []
    f = st.copy()
    e.clobber(st, a[1], I, 0, 144)
    return [(st, f32(0), "ok"), (f, f32(-1), "fail:IO")]


def simple(okset, failset, cls, w=32):
    def m(e, st, I, a):
        f = st.copy()
        return [(st, sym(e, st, I, okset) if not (len(okset) == 1 and okset[0][0] == okset[0][1]) else c_(okset[0][0], w), "ok"),
                (f, sym(e, f, I, failset) if not (len(failset) == 1 and failset[0][0] == failset[0][1]) else c_(failset[0][0], w), "fail:" + cls)]
    return m


def m_unlink(e, st, I, a):
    f = st.copy()
    return [(st, f32(0), "ok"), (f, f32(-1), "fail:UNLINK")]


def pure(r=None, derefs=()):
    def m(e, st, I, a):
        for k in derefs:
            if not deref(e, st, a[k], I, "%s() argument read" % I.callee[1]):
                return []
        return [(st, sym(e, st, I, r) if I.kind != "v" else None, "ok")]
    return m


def m_memcmp(e, st, I, a):
    for p in a[:2]:
        rdbuf(e, st, I, p, "memcmp")
        if st.dead:
            return []
    return [(st, sym(e, st, I), "ok")]


# ------------------------------------------------------------------ generic open/close handles
def opener(kind, cls, nullable=True):
    def m(e, st, I, a):
        f = st.copy() if nullable else None
        v = e.newobj(st, I, kind, "sym")
        out = [(st, v, "ok")]
        if nullable:
            out.append((f, NULL, "fail:" + cls))
        return out
    return m


def closer(kind, ret=None):
    def m(e, st, I, a):
        if a[0][0] == "p" or a[0][0] == "s":
            if not heap_release(e, st, I, a[0], kind, I.callee[1]):
                return []
        elif a[0][0] == "u":
            return []
        if ret is None:
            return [(st, NULL if I.kind == "p" else (sym(e, st, I) if I.kind != "v" else None), "ok")]
        f = st.copy()
        return [(st, f32(0), "ok"), (f, sym(e, f, I, r_compl(((0, 0),), 32)), "fail:" + ret)]
    return m


def handle_chk(e, st, I, p, what):
    if p[0] == "p":
        o = st.mem.get(p[1])
        if o is not None and o.status == "freed":
            e.report("use-after-free", I, "%s() on a released %s" % (what, e.oname(o)), extra=dict(kind=o.kind))
            st.dead = True
            return False
    if p[0] == "c" and p[1] == 0:
        e.report("null-deref", I, "%s() on a null handle" % what)
        st.dead = True
        return False
    return True


def m_fprintf(e, st, I, a):
    if not handle_chk(e, st, I, a[0], "fprintf"):
        return []
    f = st.copy()
    return [(st, sym(e, st, I, NONNEG), "ok"), (f, sym(e, f, I, NEG), "fail:IO")]


def m_fork(e, st, I, a):
    ch, f = st.copy(), st.copy()
    v = e.newobj(st, I, "child", "sym")
    return [(st, v, "ok"), (ch, f32(0), "child"), (f, f32(-1), "fail:OTHER")]


def m_waitpid(e, st, I, a):
    p = a[0]
    f = st.copy()
    for s in (st, f):
        if p[0] == "p":
            o = s.mem.get(p[1])
            if o is not None and o.kind == "child":
                s.wobj(p[1]).status = "freed"
    if a[1][:2] != NULL[:2]:
        e.clobber(st, a[1], I, 0, 4)
        e.clobber(f, a[1], I, 0, 4)
    return [(st, p, "ok"), (f, f32(-1), "fail:OTHER")]


def m_execl(e, st, I, a):
    return [(st, f32(-1), "fail:EXEC")]


def m_exit(e, st, I, a):
    return []


# ------------------------------------------------------------------ librpm / rpmio
def m_fread(e, st, I, a):
    if not handle_chk(e, st, I, a[3], "Fread"):
        return []
    e.clobber(st, a[0], I, 0, a[2][1] if a[1] == c_(1, 64) and a[2][0] == "c" else None)
    if st.dead:
        return []
    n = a[2]
    f = st.copy()
    sh = st.copy()
    v = sym(e, sh, I)
    e.assume(f, "ne", n, c_(-1, 64))
    out = [(st, n, "ok"), (f, c_(-1, 64), "fail:IO")]
    r = e.rng(sh, n)
    hi = r[-1][1] if r else (1 << 63)
    if hi > 0 and e.refine(sh, v, ((0, min(hi - 1, (1 << 63) - 1)),)) and e.assume(sh, "ult", v, n) and \
            e.assume(sh, "ne", v, n) is not False:
        out.append((sh, v, "short"))
    return out


def m_fwrite(e, st, I, a):
    if not handle_chk(e, st, I, a[3], "Fwrite"):
        return []
    t = e.target(st, a[0], I, "Fwrite buffer read")
    if st.dead:
        return []
    n = a[2]
    f = st.copy()
    v = sym(e, f, I)
    out = [(st, n, "ok")]
    e.assume(f, "ne", v, n)
    out.append((f, v, "fail:IO"))
    return out


def m_fseek(e, st, I, a):
    if not handle_chk(e, st, I, a[0], "Fseek"):
        return []
    f = st.copy()
    return [(st, f32(0), "ok"), (f, f32(-1), "fail:IO")]


def m_ftell(e, st, I, a):
    if not handle_chk(e, st, I, a[0], "Ftell"):
        return []
    f = st.copy()
    return [(st, sym(e, st, I, ((0, (1 << 63) - 1),)), "ok"), (f, c_(-1, 64), "fail:IO")]


def m_ferror(e, st, I, a):
    if not handle_chk(e, st, I, a[0], "Ferror"):
        return []
    f = st.copy()
    return [(st, f32(0), "ok"), (f, sym(e, f, I, r_compl(((0, 0),), 32)), "fail:IO")]


def hdl(model, argidx=0, name=None):
    def m(e, st, I, a):
        if not handle_chk(e, st, I, a[argidx], I.callee[1]):
            return []
        return model(e, st, I, a)
    return m


def m_headerGet(e, st, I, a):
    f = st.copy()
    if a[2][:2] != NULL[:2]:
        e.clobber(st, a[2], I)
        e.clobber(f, a[2], I)
    return [(st, f32(1), "ok"), (f, f32(0), "absent")]


def m_headerExport(e, st, I, a):
    f = st.copy()
    v = e.newobj(st, I, "malloc", "sym")
    if a[1][:2] != NULL[:2]:
        e.clobber(st, a[1], I, 0, 4)
    return [(st, v, "ok"), (f, NULL, "fail:MEMORY")]


def m_headerReload(e, st, I, a):
    """consumes its argument on success (returns the reloaded header) and on failure alike"""
    if not heap_release(e, st, I, a[0], "header", "headerReload"):
        return []
    f = st.copy()
    return [(st, e.newobj(st, I, "header", "sym"), "ok"), (f, NULL, "fail:MEMORY")]


def m_headerNext(e, st, I, a):
    f = st.copy()
    e.clobber(st, a[1], I)
    return [(st, f32(1), "ok"), (f, f32(0), "end")]


def m_strdup_like(kind):
    def m(e, st, I, a):
        f = st.copy()
        return [(st, e.newobj(st, I, "malloc", "sym"), "ok"), (f, NULL, "fail:FORMAT")]
    return m


def borrowed(cls):
    """pointer owned by somebody else, may be null"""
    def m(e, st, I, a):
        f = st.copy()
        v = e.fresh(st, ("i", I.id), 64, NZ64)
        st.mem.pop(("D", ("i", I.id)), None)
        return [(st, v, "ok"), (f, NULL, cls)]
    return m


def m_rpmdbnext(e, st, I, a):
    if a[0][0] == "c" and a[0][1] == 0:
        return [(st, NULL, "absent")]
    return borrowed("absent")(e, st, I, a)


def m_rpmdbre(e, st, I, a):
    # only the pattern modes that compile a regular expression can fail
    if a[2][0] == "c" and a[2][1] == 1 or a[0][0] == "c":
        return [(st, f32(0), "ok")]
    return simple(rset(0), rset(-1, 1), "OTHER")(e, st, I, a)


# ------------------------------------------------------------------ codecs
ZSTREAM = 112


def ctx_init(kind, okval, failset, cls, size, argidx=0, w=32, fromfail=True):
    def m(e, st, I, a):
        t = e.target(st, a[argidx], I, I.callee[1])
        if st.dead:
            return []
        f = st.copy()
        if t is not None and isinstance(t[1], int) and t[0][0] != "G":
            e.clobber(st, a[argidx], I, 0, size)
            v = e.newobj(st, I, kind, "sym")
            st.wobj(t[0]).fields[("ctx", t[1])] = (v, 0)
        return [(st, c_(okval, w), "ok"), (f, sym(e, f, I, failset), "fail:" + cls)]
    return m


def ctx_end(kinds, argidx=0):
    def m(e, st, I, a):
        t = e.target(st, a[argidx], I, I.callee[1])
        if st.dead:
            return []
        if t is not None and isinstance(t[1], int):
            o = st.mem[t[0]]
            x = o.fields.get(("ctx", t[1]))
            if x is not None:
                c = st.mem.get(x[0][1])
                if c is not None and c.status == "freed":
                    if "lzma" not in kinds:
                        e.report("double-free", I, "%s() on a codec context already ended" % I.callee[1], extra=dict(kind="codec"))
                        st.dead = True
                        return []
                elif c is not None and c.kind not in kinds:
                    e.report("bad-free", I, "%s() on a %s codec context" % (I.callee[1], c.kind), extra=dict(kind="codec"))
                    st.dead = True
                    return []
                else:
                    st.wobj(x[0][1]).status = "freed"
                    del st.wobj(t[0]).fields[("ctx", t[1])]
            elif o.kind == "heap" and o.site and not o.summ and "lzma" not in kinds and o.default != "sym":
                pass
        return [(st, sym(e, st, I) if I.kind != "v" else None, "ok")]
    return m


def ctx_use(okvals, failset, cls, size, extra=()):
    """a coder step: outcome values are grouped as documented by the codec"""
    def m(e, st, I, a):
        t = e.target(st, a[0], I, I.callee[1])
        if st.dead:
            return []
        if t is not None and isinstance(t[1], int):
            o = st.mem[t[0]]
            x = o.fields.get(("ctx", t[1]))
            if x is not None:
                c = st.mem.get(x[0][1])
                if c is not None and c.status == "freed":
                    e.report("use-after-free", I, "%s() on a codec context already ended" % I.callee[1], extra=dict(kind="codec"))
                    return []
        e.clobber(st, a[0], I, 0, size)
        out = []
        ss = fork(st, len(okvals) + (1 if failset else 0))
        for s, (v, tag) in zip(ss, okvals):
            out.append((s, f32(v), tag))
        if failset:
            s = ss[-1]
            out.append((s, sym(e, s, I, failset), "fail:" + cls))
        return out
    return m


def rset(*vals):
    from .engine import r_union
    r = ()
    for v in vals:
        v &= 0xffffffff
        r = r_union(r, ((v, v),)) if r else ((v, v),)
    return r


def zstd_ret(cls, outs=()):
    """size_t result; ZSTD_isError() decides"""
    def m(e, st, I, a):
        for k in outs:
            e.clobber(st, a[k], I, 0, 24)
        if st.dead:
            return []
        f = st.copy()
        ERR = (1 << 64) - 120
        return [(st, sym(e, st, I, ((0, ERR - 1),)), "ok"), (f, sym(e, f, I, ((ERR, (1 << 64) - 1),)), "fail:" + cls)]
    return m


def m_zstd_iserror(e, st, I, a):
    ERR = (1 << 64) - 120
    f = st.copy()
    out = []
    if a[0][0] in ("p",):
        return [(st, f32(0), "ok")]
    if e.refine(st, a[0], ((0, ERR - 1),)):
        out.append((st, f32(0), "ok"))
    if e.refine(f, a[0], ((ERR, (1 << 64) - 1),)):
        out.append((f, f32(1), "ok"))
    return out


def lz_int(cls, clob=None):
    def m(e, st, I, a):
        if not handle_chk(e, st, I, a[0], I.callee[1]):
            return []
        if clob is not None:
            e.clobber(st, a[clob], I)
            if st.dead:
                return []
        f = st.copy()
        return [(st, sym(e, st, I, NONNEG), "ok"), (f, f32(-1), "fail:" + cls)]
    return m


def md_update(e, st, I, a):
    t = e.target(st, a[0], I, I.callee[1])
    if st.dead:
        return []
    if a[2][:2] != NULL[:2]:
        r = e.rng(st, a[2])
        if not (a[1][:2] == NULL[:2] and r and r[0][0] == 0):
            rdbuf(e, st, I, a[1], I.callee[1])
    if st.dead:
        return []
    e.clobber(st, a[0], I, 0, 92 if I.callee[1][0] == "M" else 112)
    f = st.copy()
    return [(st, f32(1), "ok"), (f, f32(0), "fail:OTHER")]


def md_init(e, st, I, a):
    e.clobber(st, a[0], I, 0, 92 if I.callee[1][0] == "M" else 112)
    if st.dead:
        return []
    f = st.copy()
    return [(st, f32(1), "ok"), (f, f32(0), "fail:OTHER")]


def md_final(e, st, I, a):
    e.clobber(st, a[0], I, 0, 16 if I.callee[1][0] == "M" else 32)
    if st.dead:
        return []
    f = st.copy()
    return [(st, f32(1), "ok"), (f, f32(0), "fail:OTHER")]


def m_strcpy(e, st, I, a):
    if not deref(e, st, a[1], I, "string read"):
        return []
    e.clobber(st, a[0], I)
    return [(st, a[0], "ok")] if not st.dead else []


def m_sprintf(e, st, I, a):
    e.clobber(st, a[0], I)
    return [(st, sym(e, st, I, NONNEG), "ok")] if not st.dead else []


def m_ctype(e, st, I, a):
    v = e.fresh(st, ("i", I.id), 64, NZ64)
    return [(st, v, "ok")]


def m_preset(e, st, I, a):
    e.clobber(st, a[0], I, 0, 112)
    if st.dead:
        return []
    f = st.copy()
    return [(st, f32(0), "ok"), (f, f32(1), "fail:CODEC")]


BUFERR = rset(-5, -2, -3, -4)
MODELS = {
    "malloc": m_malloc, "calloc": m_calloc, "realloc": m_realloc, "free": m_free,
    "open": _open(), "creat": _open(), "mkstemp": _open(), "close": m_close,
    "read": m_read, "pread": m_read, "write": m_write, "pwrite": m_write, "lseek": m_lseek,
    "stat": m_stat, "fstat": m_stat, "lstat": m_stat, "unlink": m_unlink,
    "fopen": opener("FILE", "IO"), "fclose": closer("FILE", "IO"), "fprintf": m_fprintf,
    "fork": m_fork, "waitpid": m_waitpid, "execl": m_execl, "_exit": m_exit, "exit": m_exit, "abort": m_exit,
    "Fopen": opener("FD_t", "IO"), "Fclose": closer("FD_t"), "Fread": m_fread, "Fwrite": m_fwrite,
    "Fseek": m_fseek, "Ftell": m_ftell, "Ferror": m_ferror,
    "memcmp": m_memcmp, "strcmp": pure(None, (0, 1)), "strncmp": pure(None, (0, 1)),
    "strlen": pure(((0, 1 << 62),), (0,)), "strchr": pure(None, (0,)), "strrchr": pure(None, (0,)),
    "strstr": pure(None, (0, 1)), "toupper": pure(), "atoi": pure(None, (0,)), "__ctype_b_loc": m_ctype,
    "__errno_location": m_ctype,
    "strcpy": m_strcpy, "strncpy": m_strcpy, "strcat": m_strcpy, "sprintf": m_sprintf, "snprintf": m_sprintf,
    "gnu_dev_major": pure(), "gnu_dev_minor": pure(), "gnu_dev_makedev": pure(),
    # digests
    "MD5_Init": md_init, "SHA256_Init": md_init, "MD5_Update": md_update, "SHA256_Update": md_update,
    "MD5_Final": md_final, "SHA256_Final": md_final,
    # librpm
    "headerFree": closer("header"), "headerNew": opener("header", "MEMORY", False),
    "headerImport": opener("header", "FORMAT"), "headerRead": hdl(opener("header", "FORMAT")),
    "headerReload": m_headerReload, "headerExport": hdl(m_headerExport),
    "headerSizeof": hdl(pure(((0, 0x7fffffff),))),
    "headerGet": hdl(m_headerGet), "headerPut": hdl(simple(rset(1), rset(0), "OTHER")),
    "headerPutString": hdl(simple(rset(1), rset(0), "OTHER")),
    "headerDel": hdl(simple(rset(0), rset(1), "ABSENT")),
    "headerGetString": hdl(borrowed("absent")), "headerGetAsString": hdl(m_strdup_like("malloc")),
    "headerInitIterator": hdl(opener("headeriter", "MEMORY", False)), "headerFreeIterator": closer("headeriter"),
    "headerNext": hdl(m_headerNext),
    "rpmtdNew": opener("rpmtd", "MEMORY", False), "rpmtdFree": closer("rpmtd"), "rpmtdFreeData": pure(None, (0,)),
    "rpmtdCount": hdl(pure()), "rpmtdNext": hdl(pure()), "rpmtdNextString": hdl(borrowed("absent")),
    "rpmtdNextUint32": hdl(borrowed("absent")), "rpmtdGetUint16": hdl(borrowed("absent")),
    "rpmtsCreate": opener("rpmts", "MEMORY", False), "rpmtsFree": closer("rpmts"),
    "rpmtsInitIterator": hdl(opener("rpmmi", "NOINSTALL")), "rpmdbFreeIterator": closer("rpmmi"),
    "rpmdbNextIterator": m_rpmdbnext, "rpmdbSetIteratorRE": m_rpmdbre,
    "rpmReadConfigFiles": simple(rset(0), rset(-1), "CONFIG"),
    # zlib
    "deflateInit2_": ctx_init("zdeflate", 0, rset(-4, -2, -6), "CODEC", ZSTREAM),
    "inflateInit2_": ctx_init("zinflate", 0, rset(-4, -2, -6), "CODEC", ZSTREAM),
    "deflateEnd": ctx_end(("zdeflate",)), "inflateEnd": ctx_end(("zinflate",)),
    "deflate": ctx_use([(0, "ok"), (1, "ok"), (-5, "ok")], rset(-2), "CODEC", ZSTREAM),
    "inflate": ctx_use([(0, "ok"), (1, "ok"), (-5, "ok")], rset(2, -3, -4, -2), "CODEC", ZSTREAM),
    # bzip2
    "BZ2_bzCompressInit": ctx_init("bzc", 0, rset(-9, -2, -3), "CODEC", 80),
    "BZ2_bzDecompressInit": ctx_init("bzd", 0, rset(-9, -2, -3), "CODEC", 80),
    "BZ2_bzCompressEnd": ctx_end(("bzc",)), "BZ2_bzDecompressEnd": ctx_end(("bzd",)),
    "BZ2_bzCompress": ctx_use([(1, "ok"), (2, "ok"), (3, "ok"), (4, "ok")], rset(-1), "CODEC", 80),
    "BZ2_bzDecompress": ctx_use([(0, "ok"), (4, "ok")], rset(-4, -5, -3), "CODEC", 80),
    # liblzma
    "lzma_easy_encoder": ctx_init("lzma", 0, rset(5, 8, 11), "CODEC", 136),
    "lzma_alone_encoder": ctx_init("lzma", 0, rset(5, 8, 11), "CODEC", 136),
    "lzma_auto_decoder": ctx_init("lzma", 0, rset(5, 8, 11), "CODEC", 136),
    "lzma_code": ctx_use([(0, "ok"), (1, "ok"), (10, "ok")], rset(5, 6, 7, 8, 9, 11), "CODEC", 136),
    "lzma_lzma_preset": m_preset,
    "lzma_end": ctx_end(("lzma",)),
    # lzlib
    "LZ_compress_open": opener("lzc", "MEMORY"), "LZ_decompress_open": opener("lzd", "MEMORY"),
    "LZ_compress_close": closer("lzc"), "LZ_decompress_close": closer("lzd"),
    "LZ_compress_errno": simple(rset(0), ((1, 6),), "CODEC"), "LZ_decompress_errno": simple(rset(0), ((1, 6),), "CODEC"),
    # finishing only sets a flag; it refuses nothing but a null coder, and later reads report a broken one
    "LZ_compress_finish": hdl(pure(((0, 0),))), "LZ_decompress_finish": hdl(pure(((0, 0),))),
    "LZ_compress_finished": hdl(pure(((0, 1),))), "LZ_decompress_finished": hdl(pure(((0, 1),))),
    "LZ_compress_read": lz_int("CODEC", 1), "LZ_decompress_read": lz_int("CODEC", 1),
    "LZ_compress_write": lz_int("CODEC"), "LZ_decompress_write": lz_int("CODEC"),
    "LZ_compress_write_size": hdl(pure(NONNEG)), "LZ_decompress_write_size": hdl(pure(NONNEG)),
    # zstd
    "ZSTD_createCCtx": opener("zstdc", "MEMORY"), "ZSTD_createDCtx": opener("zstdd", "MEMORY"),
    "ZSTD_freeCCtx": closer("zstdc"), "ZSTD_freeDCtx": closer("zstdd"),
    "ZSTD_CCtx_setParameter": hdl(zstd_ret("CODEC")),
    "ZSTD_CStreamOutSize": pure(((1, 1 << 20),)), "ZSTD_DStreamOutSize": pure(((1, 1 << 20),)),
    "ZSTD_compressStream2": hdl(zstd_ret("CODEC", (1, 2))), "ZSTD_decompressStream": hdl(zstd_ret("CODEC", (1, 2))),
    "ZSTD_isError": m_zstd_iserror,
}
