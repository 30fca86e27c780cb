"""Making a delta: which part of which package ends up where."""
from .. import models
from ..engine import c_, NIL, lin as plin
from ..run import parallel, Broken
from .api import fix, leaf, done, DEFAULTS
from .format import Trace, sym, at, name, obj, ANY, D
from .conduit import lin, add, same, ptr, pack, unpack, zero

NZ = ((4096, (1 << 64) - 1),)
OPT = "drpm_make_options"
UNCOMP, DECOMP = 1, 2
PTRS = {"seqfile", "oldrpmprint", "oldpatchrpm"}


def option(k, w):
    return sym(w, "opt", k)


class Make(Trace):
    """drpm_make() with what it calls replaced by the named parts it asks for"""

    def __init__(self, M, case, bad):
        super().__init__()
        self.M, self.case, self.bad_ = M, case, bad
        self.models = dict(self.models, realloc=self.m_realloc, malloc=self.m_malloc, free=lambda e, st, I, a: [(st, None, "ok")],
                           strcpy=self.m_strcpy, strdup=self.m_strdup)
        self.writes = 0

    def bad(self, I, text):
        self.bad_(text, I)

    # -------------------------------------------------------------- buffers
    def bufs(self, st):
        return {k: (room, pieces) for k, room, pieces in st.ghost.get("bufs", ())}

    def setbuf(self, st, b):
        st.ghost["bufs"] = tuple(sorted(((k, r, p) for k, (r, p) in b.items()), key=repr))

    def base(self, e, st, v):
        oid, off = ptr(e, st, v)
        if oid is None:
            return None, off
        return ("val", ("s", oid[1], 64) if oid[0] == "D" else ("p", oid, 0)), off

    def m_malloc(self, e, st, I, a):
        r = models.MODELS["malloc"](e, st, I, a)[:1]
        st, v = r[0][:2]
        b = self.bufs(st)
        b[("val", v)] = (pack(lin(e, st, a[0])), ())
        self.setbuf(st, b)
        return r

    def m_realloc(self, e, st, I, a):
        k, _ = self.base(e, st, a[0])
        b = self.bufs(st)
        if k in b:
            b[k] = (pack(lin(e, st, a[1])), b[k][1])
            self.setbuf(st, b)
            return [(st, a[0], "ok")]
        return models.MODELS["realloc"](e, st, I, a)[:1]

    def content(self, e, st, v, n):
        """what is in the n bytes at v; None when not one known thing"""
        k, off = self.base(e, st, v)
        b = self.bufs(st)
        if k not in b:
            nm = name(v)
            return None if nm in (ANY, 0) else nm
        if n is None:       # a string
            n = next((unpack(l) for o, c, l in b[k][1] if unpack(o) == off), None)
            if n is None:
                return None
        for o, c, l in reversed(b[k][1]):
            o, l = unpack(o), unpack(l)
            if zero(e, st, add(o, off, -1)):
                return c if zero(e, st, add(l, n, -1)) else None
            # a later piece may only touch one end
            if not (zero(e, st, add(o, add(off, n), -1)) or zero(e, st, add(add(o, l), off, -1))):
                return None
        return None

    def put(self, e, st, v, c, n):
        k, off = self.base(e, st, v)
        b = self.bufs(st)
        if k in b:
            b[k] = (b[k][0], b[k][1] + ((pack(off), c, pack(n)),))
            self.setbuf(st, b)

    def on_ext(self, e, st, I, nm, a, ret, tag):
        if nm == "memcpy":
            n = lin(e, st, a[2])
            c = self.content(e, st, a[1], n)
            if self.base(e, st, a[0])[0] == self.base(e, st, a[1])[0] and "memmove" not in I.callee[1]:
                c = None        # the two overlap
            self.put(e, st, a[0], c or "?", n)

    def m_strcpy(self, e, st, I, a):
        c = self.content(e, st, a[1], None)
        if c:
            self.put(e, st, a[0], c, add((1, ()), lin(e, st, sym(64, "strlen", c))))
        return models.MODELS["strcpy"](e, st, I, a)

    def m_strdup(self, e, st, I, a):
        c = self.content(e, st, a[0], None)
        if not c:
            return models.MODELS["strdup"](e, st, I, a)[:1]
        return [(st, self.given(e, st, c.split(".")), "ok")]

    def on_return(self, eng, st, I, v):
        if "bufs" in st.ghost:
            self.setbuf(st, {k: x for k, x in self.bufs(st).items()
                             if not (k[1][0] == "p" and (k[1][1] not in st.mem or k[1][1][0] == "A"))})

    # -------------------------------------------------------------- parts of packages
    def given(self, e, st, n, size=None):
        """a pointer to a part, or what the function was asked to compute"""
        v = sym(64, *n)
        e.refine(st, v, NZ)
        if size is not None:
            b = self.bufs(st)
            L = pack(lin(e, st, size))
            b[("val", v)] = (L, ((pack((0, ())), ".".join(n), L),))
            self.setbuf(st, b)
        return v

    def out(self, e, st, I, p, size, v):
        if p == NIL or p[:2] == ("c", 0):
            return
        t = e.target(st, p, I, "write")
        if t is None:
            raise Broken("result of a call goes to an unknown place at %s" % I.loc())
        e.store(st, t[0], t[1], size, v)

    def pkg(self, v):
        n = name(v)
        return n if n.startswith("pkg.") else ANY

    def arg(self, v):
        n = name(v)
        return n if isinstance(n, str) and n.startswith("argument") else None

    def c_copy(self, e, st, I, a):
        if a[1][0] == "c" or a[1][0] == "s" and name(a[1]) != "argument3":
            self.bad(I, "options other than the caller's are used")
        self.setopts(e, st, I, a[0], lambda k, w: self.opt(k, w))
        self.ev(st, "options")
        return [(st, c_(0, 32))]

    def c_defaults(self, e, st, I, a):
        self.setopts(e, st, I, a[0], lambda k, w: c_(DEFAULTS[k], w) if k in DEFAULTS else self.opt(k, w))
        self.ev(st, "options")
        return [(st, c_(0, 32))]

    def setopts(self, e, st, I, p, f):
        t = e.target(st, p, I, "write")
        if t is None:
            raise Broken("options are copied to an unknown place")
        for k, (o, z) in leaf(self.M, OPT).items():
            v = f(k, z * 8)
            e.store(st, t[0], t[1] + o, z, v)

    def opt(self, k, w):
        if k in self.case["opts"]:
            return c_(self.case["opts"][k], w)
        return option(k, w)

    def c_read(self, e, st, I, a):
        f = self.arg(a[1])
        if f not in ("argument0", "argument1"):
            self.bad(I, "something other than one of the two packages is read")
            return []
        w = "old" if f == "argument0" else "new"
        if self.case["alone"]:
            w = "solo"
        mode = a[2][1] if a[2][0] == "c" else None
        tag = {UNCOMP: "raw", DECOMP: "unpacked"}.get(mode, "none")
        p = self.given(e, st, ("pkg", w, tag))
        self.out(e, st, I, a[0], 8, p)
        if tag != "none":
            self.out(e, st, I, a[3], 2, sym(16, "comp", w))
            for k, n in ((4, "headermd5"), (5, "filemd5")):
                if a[k][:2] != ("c", 0):
                    t = e.target(st, a[k], I, "write")
                    if t is None:
                        raise Broken("a digest goes to an unknown place at %s" % I.loc())
                    for h in (0, 8):
                        e.store(st, t[0], t[1] + h, 8, sym(64, n, w, str(h)))
        self.ev(st, "read", w)
        return [(st, c_(0, 32))]

    def part(kind, w, k=1, null=True):
        """a function that stores one part of a package"""
        def f(self, e, st, I, a):
            p = self.pkg(a[0])
            n = (kind, p) + (("patched",) if ("patched", p) in st.ghost.get("pt", ()) and kind in ("payfmt", "payfmtoff", "header", "headersize") else ())
            if w == 64:
                v = self.given(e, st, n)
            else:
                v = sym(w, *n)
                if kind == "payfmt":
                    e.refine(st, v, ((0, 2),))
            self.out(e, st, I, a[k], w // 8, v)
            return [(st, c_(0, 32))]
        return f

    def fetch(kind, lw):
        def f(self, e, st, I, a):
            p = self.pkg(a[0])
            n = (kind, p) + (("patched",) if ("patched", p) in st.ghost.get("pt", ()) and kind == "header" else ())
            ln = sym(lw, "len", *n)
            e.refine(st, ln, ((1, (1 << 31)),))
            self.out(e, st, I, a[1], 8, self.given(e, st, n, ln))
            self.out(e, st, I, a[2], lw // 8, ln)
            return [(st, c_(0, 32))]
        return f

    def size(kind):
        def f(self, e, st, I, a):
            return [(st, sym(32, kind, self.pkg(a[0])))]
        return f

    def c_patch(self, e, st, I, a):
        p = self.pkg(a[0])
        k, off = self.base(e, st, a[1])
        s = None
        if a[1][0] == "p" and a[1][1][0] == "G":
            g = self.M.globals.get(a[1][1][1])
            s = g.get("str") or g.get("bytes") if g else None
        if not s or bytes(s if not isinstance(s, str) else s.encode()).split(b"\0")[0] != b"drpm":
            self.bad(I, "the payload format in the header is set to something other than \"drpm\"")
        st.ghost["pt"] = tuple(sorted(set(st.ghost.get("pt", ())) | {("patched", p)}))
        return [(st, c_(0, 32))]

    def c_patches(self, e, st, I, a):
        for v, k in ((a[0], "oldrpmprint"), (a[1], "oldpatchrpm")):
            want = self.case["opts"].get(k)
            if not (v[:2] == ("c", 0) if want == 0 or self.case["defaults"] else name(v) == "opt." + k):
                self.bad(I, "the list of patched files is not read from the files named in the options")
        self.out(e, st, I, a[2], 8, self.given(e, st, ("patches",)) if self.case["patches"] else NIL)
        self.ev(st, "patches")
        return [(st, c_(0, 32))]

    def c_nevr(self, e, st, I, a):
        if name(a[0]) != "patches" or self.content(e, st, a[1], None) != "nevr." + self.old():
            self.bad(I, "the patched files are compared with something other than the old package's name")
        self.ev(st, "patches checked")
        return [(st, c_(0, 32))]

    def old(self, mode="unpacked"):
        return "pkg.%s.%s" % ("solo" if self.case["alone"] else "old", mode)

    def new(self, mode="unpacked"):
        return "pkg.%s.%s" % ("solo" if self.case["alone"] else "new", mode)

    def isnull(self, v):
        return v[:2] == ("c", 0)

    def c_parse(self, e, st, I, a):
        if self.pkg(a[0]) != self.old():
            self.bad(I, "the old data is rebuilt from %s instead of the old package" % name(a[0]))
        if ("patched", self.pkg(a[0])) in st.ghost.get("pt", ()):
            self.bad(I, "the old data is rebuilt after the header was changed")
        if not (name(a[7]) == "patches" if self.case["patches"] else self.isnull(a[7])):
            self.bad(I, "the old data is rebuilt without regard to the patched files")
        ln = sym(64, "len", "olddata")
        e.refine(st, ln, ((0, 1 << 40),))
        self.out(e, st, I, a[1], 8, self.given(e, st, ("olddata",), ln))
        self.out(e, st, I, a[2], 8, ln)
        self.out(e, st, I, a[3], 8, self.given(e, st, ("sequence",)))
        self.out(e, st, I, a[4], 4, sym(32, "len", "sequence"))
        self.out(e, st, I, a[5], 8, sym(64, "offadj"))
        self.out(e, st, I, a[6], 4, sym(32, "count", "offadj"))
        return [(st, c_(0, 32))]

    def c_diff(self, e, st, I, a):
        rpm_only = self.case["rpm_only"]
        for v, n, w in ((a[0], a[1], "old"), (a[2], a[3], "new")):
            L = lin(e, st, n)
            p = self.old() if w == "old" else self.new()
            if rpm_only:
                h, ar = "header." + p, "archive." + p
                lh, la = lin(e, st, sym(32, "len", *("header", p))), lin(e, st, sym(64, "len", "archive", p))
                k, off = self.base(e, st, v)
                room = self.bufs(st).get(k, (None,))[0]
                o0, o1 = v, self.shift(v, lh)
                if not zero(e, st, add(L, add(lh, la), -1)):
                    self.bad(I, "the %s data compared is not as long as header and archive together" % w)
                elif self.content(e, st, o0, lh) != h or self.content(e, st, o1, la) != ar:
                    self.bad(I, "the %s data compared is not the header followed by the archive of the %s package" % (w, w))
                elif room is None or not zero(e, st, add(unpack(room), L, -1)) and not self.fits(e, st, unpack(room), L):
                    self.bad(I, "the %s data does not fit the memory it is put together in" % w)
            else:
                c = "olddata" if w == "old" else "archive." + p
                ln = sym(64, "len", "olddata") if w == "old" else sym(64, "len", "archive", p)
                if self.content(e, st, v, lin(e, st, ln)) != c or not same(e, st, n, ln):
                    self.bad(I, "the %s data compared is not all of %s" % (w, "the old package's installed files"
                                                                       if w == "old" else "the new package's archive"))
        for k, (n, z) in enumerate((("int_data", 8), ("int_data_len", 8), ("ext_copies", 8), ("ext_copies_count", 4),
                                    ("int_copies", 8), ("int_copies_count", 4))):
            v = self.given(e, st, ("diff", n)) if n == "int_data" else sym(z * 8, "diff", n)
            self.out(e, st, I, a[4 + k], z, v)
        on = self.case["opts"].get("addblk", 1)
        if self.isnull(a[10]) != self.isnull(a[11]) or self.isnull(a[10]) == bool(on):
            self.bad(I, "an add block is made although the options forbid it, or not made although they do not")
        self.out(e, st, I, a[10], 8, sym(64, "diff", "add_data"))
        self.out(e, st, I, a[11], 4, sym(32, "diff", "add_data_len"))
        if on:
            for v, k in ((a[12], "addblk_comp"), (a[13], "addblk_comp_level")):
                n = self.want_opt(k)
                got = name(v)
                if got != n:
                    self.bad(I, "the add block is compressed with %s instead of %s" % (got, n))
        self.ev(st, "diff")
        return [(st, c_(0, 32))]

    def fits(self, e, st, room, L):
        from .conduit import bounds
        b = bounds(e, st, add(room, L, -1))
        return b is not None and b[0] >= 0

    def shift(self, v, L):
        return ("p", v[1], plin(v[2], L[0], L[1])) if v[0] == "p" else ("p", ("D", v[1]), plin(0, L[0], L[1]))

    def want_opt(self, k):
        """the value option k has in this case"""
        if self.case["defaults"]:
            return DEFAULTS[k]
        if k in self.case["opts"]:
            return self.case["opts"][k]
        return "opt." + k

    # -------------------------------------------------------------- what is written
    def c_write(self, e, st, I, a):
        if a[0][0] != "p" or not isinstance(a[0][2], int):
            raise Broken("drpm_make() writes something that is no delta of its own")
        self.writes += 1
        oid, base = a[0][1], a[0][2]
        want = self.expect()
        F = leaf(self.M, D)
        for k in sorted(want):
            w = want[k]
            off, z = F[k]
            v = e.load(st, oid, base + off, z)
            if k in ("src_nevr", "head") and w.startswith("nevr"):
                got = self.content(e, st, v, None)
            elif k == "filename":
                got = self.arg(v)
            elif k == "sequence" and w == "md5":
                t = e.target(st, v, I, "read")
                p = "solo" if self.case["alone"] else "old"
                got = [name(e.load(st, t[0], t[1] + h, 8)) for h in (0, 8)] if t else None
                w = ["headermd5.%s.%d" % (p, h) for h in (0, 8)]
            else:
                while v[0] == "o" and v[1] in ("zext", "trunc") and v[3][0] in ("s", "c", "o"):
                    r = e.rng(st, v[3])
                    if v[1] == "trunc" and not (r and r[-1][1] >> v[2] == 0):
                        break
                    v = v[3]
                got = name(v)
            if got != w:
                self.bad(I, "%s of the delta written is %s instead of %s" % (k, got, w))
        for h in (0, 8):
            off = self.M.fields[D]["tgt_md5"][0]
            p = "solo" if self.case["alone"] else "new"
            got = name(e.load(st, oid, base + off + h, 8))
            if got != "filemd5.%s.%d" % (p, h):
                self.bad(I, "tgt_md5 of the delta written is not the digest of the new package")
        if not self.case["nodiff"]:
            r = e.rng(st, sym(16, "payfmt", self.new())) if ("s", at("payfmt", self.new()), 16) in st.cons else None
            if r != ((1, 1),) and self.case["checkfmt"]:
                self.bad(I, "a delta is written although the new package's payload may not be in cpio format")
            if not self.case["rpm_only"] and ("patched", self.new()) not in st.ghost.get("pt", ()):
                self.bad(I, "the header is written without its payload format set to \"drpm\"")
            if self.case["patches"] and not any(x[0] == "patches checked" for x in st.ghost["tr"]):
                self.bad(I, "a delta is written although the patched files may belong to another package")
        self.ev(st, "written")
        return [(st, c_(0, 32))]

    def c_seq(self, e, st, I, a):
        tr = [x[0] for x in st.ghost.get("tr", ())]
        if name(a[1]) != "opt.seqfile" or a[0][0] != "p":
            self.bad(I, "the sequence is written to something other than the file named in the options")
        if "written" not in tr:
            # the members written to it must be complete
            pass
        k = leaf(self.M, D)["sequence"]
        v = e.load(st, a[0][1], a[0][2] + k[0], 8)
        if self.isnull(v):
            self.bad(I, "the sequence is written before it is known")
        self.ev(st, "seqfile")
        return [(st, c_(0, 32))]

    def expect(self):
        c = self.case
        old, new = self.old(), self.new()
        w = dict(filename="argument2", type=1 if c["rpm_only"] else 0, version=c["opts"].get("version", 3),
                 tgt_comp_param_len=0, tgt_comp_param=0)
        if c["nodiff"]:
            p = self.old("raw")
            w.update(comp=COMP_GZIP if c["comp_from_rpm"] else "opt.comp", comp_level=0 if c["comp_from_rpm"] else "opt.comp_level",
                     tgt_comp=0, sequence="md5", sequence_len=16, src_nevr="nevr." + p, head="nevr." + p,
                     tgt_leadsig="leadsig." + p, tgt_leadsig_len="len.leadsig." + p, tgt_size="filesize." + p,
                     tgt_header_len="headersize." + p, int_copies_count=0, ext_copies_count=0, ext_data_len=0,
                     int_data_len=0, add_data_len=0, offadj_elems_count=0)
            return w
        x = new.split(".")[1]
        w.update(comp="comp." + x if c["comp_from_rpm"] else "opt.comp", comp_level="complevel." + new if c["comp_from_rpm"] else "opt.comp_level",
                 tgt_comp="comp." + x, tgt_comp_level="complevel." + new, src_nevr="nevr." + old,
                 tgt_leadsig="leadsig." + new, tgt_leadsig_len="len.leadsig." + new, tgt_size="filesize." + new,
                 int_data="diff.int_data", int_data_len="diff.int_data_len", ext_copies="diff.ext_copies",
                 ext_copies_count="diff.ext_copies_count", int_copies="diff.int_copies", int_copies_count="diff.int_copies_count",
                 int_data_as_ptrs=1)
        on = c["opts"].get("addblk", 1)
        w.update(add_data="diff.add_data" if on else 0, add_data_len="diff.add_data_len" if on else 0)
        if c["rpm_only"]:
            w.update(sequence="md5", sequence_len=16, head="nevr." + new, tgt_header_len="len.header." + new, offadj_elems_count=0,
                     payload_fmt_off="payfmtoff." + new,
                     ext_data_len="+".join(sorted(["len.archive." + old, "len.header." + old])))
        else:
            w.update(sequence="sequence", sequence_len="len.sequence", head=new, payload_fmt_off="payfmtoff.%s.patched" % new,
                     ext_data_len="len.olddata")
            if w["version"] >= 3:   # (not written in older versions)
                w.update(offadj_elems="offadj", offadj_elems_count="count.offadj")
        return w

    cut = {
        "drpm_make_options_copy": c_copy, "drpm_make_options_defaults": c_defaults, "rpm_read": c_read,
        "rpm_get_payload_format": part("payfmt", 16), "rpm_get_comp_level": part("complevel", 16),
        "rpm_get_nevr": part("nevr", 64), "rpm_fetch_lead_and_signature": fetch("leadsig", 32),
        "rpm_fetch_header": fetch("header", 32), "rpm_fetch_archive": fetch("archive", 64),
        "rpm_size_full": size("filesize"), "rpm_size_header": size("headersize"),
        "rpm_find_payload_format_offset": part("payfmtoff", 32), "rpm_patch_payload_format": c_patch,
        "patches_read": c_patches, "patches_check_nevr": c_nevr, "parse_cpio_from_rpm_filedata": c_parse,
        "make_diff": c_diff, "write_deltarpm": c_write, "write_seqfile": c_seq,
        "free_deltarpm": lambda p, e, st, I, a: [(st, None)], "rpm_destroy": lambda p, e, st, I, a: [(st, c_(0, 32))],
        "patches_destroy": lambda p, e, st, I, a: [(st, c_(0, 32))],
    }


COMP_GZIP = 1


def cases():
    for old, new in ((1, 1), (1, 0), (0, 1)):
        for defaults in (0, 1):
            for rpm_only in (0, 1) if not defaults else (0,):
                for version in ((3,) if rpm_only or defaults else (1, 2, 3)):
                    for cfr in (0, 1) if not defaults else (1,):
                        for addblk in (0, 1) if not defaults and version == 3 else (1,):
                            for patches in (0, 1) if not rpm_only and not defaults and version == 3 else (0,):
                                o = dict(rpm_only=rpm_only, version=version, comp_from_rpm=cfr, addblk=addblk)
                                yield dict(old=old, new=new, alone=not (old and new), defaults=defaults, rpm_only=rpm_only,
                                           comp_from_rpm=cfr, patches=patches, checkfmt=1,
                                           nodiff=bool(rpm_only and not (old and new)), opts=o)


def text(c):
    return "%s%s delta of version %d%s" % (
        "an rpm-only" if c["rpm_only"] else "a standard",
        "" if not c["alone"] else " identity", c["opts"]["version"],
        ", compression from the package" if c["comp_from_rpm"] else "")


def argument(k):
    def f(eng, st, F, pid):
        st.env[pid] = sym(64, "argument%d" % k)
        eng.refine(st, st.env[pid], NZ)
    return f


def one(ctx, cfg, c):
    M = ctx.prog.mods[cfg]

    def bad(t, I):
        ctx.violation("make:" + t, "drpm_make()%s, making %s: %s (configuration %s)" % (
            ", " + I.loc() if I is not None else "", text(c), t, cfg))

    for seq in (0, 1):
        o = dict(c["opts"])
        if not seq:
            o["seqfile"] = 0
        if c["defaults"] and seq:
            continue
        p = Make(M, dict(c, opts=o), bad)

        def user(eng, st, F, pid, p=p):
            argument(3)(eng, st, F, pid)
            st.mem[("D", st.env[pid][1])] = obj(M, OPT, {k: p.opt(k, z * 8) for k, (_, z) in leaf(M, OPT).items()})
            for k in PTRS:
                if k not in p.case["opts"]:
                    eng.refine(st, option(k, 64), NZ)

        kw = dict(a0=argument(0) if c["old"] else "null", a1=argument(1) if c["new"] else "null", a2=argument(2),
                  a3="null" if c["defaults"] else user)
        exits = p.run(ctx, cfg, "drpm_make", fix(**kw), caps=64)
        good = 0
        for st, v, I in exits:
            if not p.ok(st, v):
                continue
            tr = [x[0] for x in st.ghost.get("tr", ())]
            good += 1
            if tr.count("written") != 1:
                bad("success is reported after the delta was written %s" % ("not at all" if "written" not in tr else "more than once"), I)
            if tr.count("seqfile") != (1 if seq else 0):
                bad("the sequence file is %s" % ("not written although the options name one" if seq else "written although the options name none"), I)
        if not good and not ctx.violations:
            bad("no delta is ever made", None)
        ctx.coverage["deltas_judged"] = ctx.coverage.get("deltas_judged", 0) + p.writes


def making(ctx):
    parallel(ctx, one, [(cfg, c) for cfg in ctx.configs for c in cases()])
    ctx.coverage["explanation"] = (
        "abstract interpretation of drpm_make() for each combination of packages, delta type, version, compression, add block, patches and "
        "sequence file, with every part of a package as a named symbol; every member of the delta handed to the writer, and the data "
        "handed to the diff, compared with the part it has to be")
    ctx.require(ctx.coverage.get("deltas_judged", 0) > 20, "no deltas are written")
    done(ctx)
