"""Applying a delta: what is put together, from where, in which order."""
from .. import models
from ..engine import c_, NIL, lin as plin
from ..run import parallel, Broken
from .api import fix, leaf, done
from .format import sym, at, name, ANY, D
from .conduit import lin, add, zero, same, ptr
from .pipeline import argument, NZ
from .shadow import Shadowed, SH

# what should be: value, width
SLOTS = {"ipos": 8, "epos": 8, "icount": 4, "todo": 4, "ilen": 4, "iptr": 8, "off": 8, "left": 8, "done": 8, "blk": 8, "n": 8,
         "added": 8, "eoff": 4, "elen": 4, "itodo": 4, "buf": 8, "abuf": 8, "fresh": 1}

class Apply(Shadowed):
    slots = SLOTS
    marks = ("stage", "out", "hash", "facts", "idone")

    def __init__(self, M, case, bad):
        super().__init__(bad)
        self.M, self.case = M, case
        self.models = dict(self.models, creat=self.m_creat, write=self.m_write, MD5_Init=lambda e, st, I, a: [(st, c_(1, 32), "ok")],
                           MD5_Update=self.m_update, MD5_Final=self.m_final, memcmp=self.m_memcmp, strcmp=self.m_strcmp,
                           close=lambda e, st, I, a: [(st, c_(0, 32), "ok")], free=lambda e, st, I, a: [(st, None, "ok")],
                           malloc=lambda e, st, I, a: models.MODELS["malloc"](e, st, I, a)[:1])
        self.pieces = self.copies = self.finals = 0

    def note(self, st, k, *v):
        st.ghost[k] = st.ghost.get(k, ()) + v

    # -------------------------------------------------------------- what should be
    def start(self, e, st):
        z = {"ipos": ("p", ("D", at("delta", "int_copies")), -8), "epos": ("p", ("D", at("delta", "ext_copies")), -8),
             "icount": self.field("int_copies_count", 4), "iptr": ("p", ("D", at("delta", "int_data")), 0)}
        self.begin(st, z)
        st.ghost["idone"] = 1

    def field(self, n, z):
        v = self.case["delta"].get(n)
        return c_(v, z * 8) if v is not None else sym(z * 8, "delta", n)

    # -------------------------------------------------------------- output and digest
    def m_creat(self, e, st, I, a):
        v = sym(32, "fd")
        e.refine(st, v, ((3, 1 << 20),))
        if name(a[0]) != "argument2":
            self.bad(I, "the output is written to something other than the file named for it")
        return [(st, v, "ok")]

    def item(self, e, st, v, n):
        d = name(v)
        L = lin(e, st, n)
        for k, (p, l, z) in ITEMS.items():
            if d == p and L == lin(e, st, sym(z, *l)):
                return k
        return "%s (%s bytes)" % (d, name(n))

    def m_write(self, e, st, I, a):
        if name(a[0]) != "fd":
            self.bad(I, "data is written to something other than the output")
        self.note(st, "out", self.item(e, st, a[1], a[2]))
        return [(st, a[2], "ok")]

    def m_update(self, e, st, I, a):
        self.note(st, "hash", self.item(e, st, a[1], a[2]))
        return [(st, c_(1, 32), "ok")]

    def m_final(self, e, st, I, a):
        for h in (0, 8):
            self.out(e, st, I, a[0], h, 8, sym(64, "digest", h))
        return [(st, c_(1, 32), "ok")]

    def out(self, e, st, I, p, k, size, v):
        if p[:2] == ("c", 0):
            return
        t = e.target(st, p, I, "write")
        if t is None or not isinstance(t[1], int):
            raise Broken("result of a call goes to an unknown place at %s" % I.loc())
        e.store(st, t[0], t[1] + k, size, v)

    def sixteen(self, e, st, v):
        t = e.target(st, v, None, "read") if v[0] == "p" else None
        if t is None or not isinstance(t[1], int):
            return name(v)
        n = [name(e.load(st, t[0], t[1] + h, 8)) for h in (0, 8)]
        if n == [0, 0]:
            return "zero"
        return n[0][:-2] if isinstance(n[0], str) and n[0].endswith(".0") and n[1] == n[0][:-1] + "8" else ANY

    def m_memcmp(self, e, st, I, a):
        x, y = sorted((self.sixteen(e, st, a[0]), self.sixteen(e, st, a[1])))
        eq, ne = st, st.copy()
        if a[2][:2] == ("c", 16):
            self.compared(e, eq, I, x, y)
        if ("delta.tgt_md5", "zero") == (x, y):
            eq.ghost["facts"] = tuple(sorted(set(eq.ghost.get("facts", ())) | {"nofull"}))
            ne.ghost["facts"] = tuple(sorted(set(ne.ghost.get("facts", ())) | {"full"}))
        v = e.fresh(ne, ("i", I.id), 32, ((1, (1 << 32) - 1),))
        return [(eq, c_(0, 32), "ok"), (ne, v, "ok")]

    def m_strcmp(self, e, st, I, a):
        ne = st.copy()
        v = e.fresh(ne, ("i", I.id), 32, ((1, (1 << 32) - 1),))
        return [(st, c_(0, 32), "ok"), (ne, v, "ok")]

    def compared(self, e, st, I, x, y):
        """final comparison of a digest: of what?"""
        other = [k for k in (x, y) if not k.startswith(("digest", "written"))]
        mine = [k for k in (x, y) if k.startswith(("digest", "written"))]
        if len(mine) != 1 or other[0] not in ("delta.tgt_md5", "sigmd5"):
            return
        self.finals += 1
        full = other[0] == "delta.tgt_md5"
        body = ["payload"] if self.case["rpm_only"] else ["header", "payload"]
        if mine[0] == "digest":
            got, want = list(st.ghost.get("hash", ())), (["leadsig"] if full else []) + body
            if got != want:
                self.bad(I, "the digest compared with %s is that of %s instead of %s" % (
                    "the delta's" if full else "the signature's", " + ".join(got) or "nothing", " + ".join(want)))
        elif mine[0] != "written.%s" % ("full" if full else "part"):
            self.bad(I, "the digest compared with %s is not of the %s" % (
                "the delta's" if full else "the signature's", "whole package" if full else "header and archive"))

    # -------------------------------------------------------------- calls
    def c_readdelta(self, e, st, I, a):
        if name(a[1]) != "argument1":
            self.bad(I, "the delta is read from something other than the file named for it")
        t = e.target(st, a[0], I, "write")
        for k, (o, z) in leaf(self.M, D).items():
            e.store(st, t[0], t[1] + o, z, self.field(k, z))
        o = self.M.fields[D]["tgt_md5"][0]
        for h in (0, 8):
            e.store(st, t[0], t[1] + o + h, 8, sym(64, "delta", "tgt_md5", h))
        for k in ("int_copies", "ext_copies", "int_data", "tgt_leadsig", "head", "sequence", "src_nevr", "add_data"):
            if k not in self.case["delta"]:
                e.refine(st, self.field(k, 8), NZ)
        for k in ("tgt_leadsig_len", "add_data_len"):
            if k not in self.case["delta"]:
                e.refine(st, self.field(k, 4), ((1, 1 << 31),))
        self.start(e, st)
        return [(st, c_(0, 32))]

    def c_read(self, e, st, I, a):
        if name(a[1]) != "argument0":
            self.bad(I, "a package other than the old one is read")
        p = sym(64, "old", {("c", 1): "raw", ("c", 2): "unpacked"}.get(a[2][:2], "none"))
        e.refine(st, p, NZ)
        self.out(e, st, I, a[0], 0, 8, p)
        return [(st, c_(0, 32))]

    def c_readhdr(self, e, st, I, a):
        p = sym(64, "old", "installed")
        e.refine(st, p, NZ)
        self.out(e, st, I, a[0], 0, 8, p)
        return [(st, c_(0, 32))]

    def given(k, size, *n):
        def f(self, e, st, I, a):
            v = sym(size * 8, *n)
            if size == 8:
                e.refine(st, v, NZ)
            self.out(e, st, I, a[k], 0, size, v)
            return [(st, c_(0, 32))]
        return f

    def c_fileinfo(self, e, st, I, a):
        v = sym(64, "files")
        e.refine(st, v, NZ)
        self.out(e, st, I, a[1], 0, 8, v)
        self.out(e, st, I, a[2], 0, 8, c_(0, 64) if False else sym(64, "count", "files"))
        return [(st, c_(0, 32))]

    def c_expand(self, e, st, I, a):
        if [name(x) for x in a[2:6]] != ["delta.sequence", "delta.sequence_len", "files", "count.files"] or name(a[6]) != "algo" or a[7][:2] != ("c", 0):
            self.bad(I, "the files are not those the delta's sequence lists of the old package")
        v = sym(64, "cpio")
        e.refine(st, v, NZ)
        self.out(e, st, I, a[0], 0, 8, v)
        self.out(e, st, I, a[1], 0, 8, sym(64, "count", "cpio"))
        return [(st, c_(0, 32))]

    def c_sigmd5(self, e, st, I, a):
        rep = st.ghost.get("facts", ())
        n = "sigmd5" if "replaced" in rep else "oldsigmd5"
        for h in (0, 8):
            self.out(e, st, I, a[1], h, 8, sym(64, n, h))
        v = sym(8, "has", n)
        e.refine(st, v, ((0, 1),))
        self.out(e, st, I, a[2], 0, 1, v)
        return [(st, c_(0, 32))]

    def c_replace(self, e, st, I, a):
        if not (name(a[0]) or "").startswith("old.") or name(a[1]) != "delta.tgt_leadsig" or name(a[2]) != "delta.tgt_leadsig_len":
            self.bad(I, "the old package's lead and signature are not replaced by the new one's")
        st.ghost["facts"] = tuple(sorted(set(st.ghost.get("facts", ())) | {"replaced"}))
        return [(st, c_(0, 32))]

    def c_write(self, e, st, I, a):
        if name(a[0]) != "old.raw":
            self.bad(I, "the package written is not the old one with its archive as it is")
        if "replaced" not in st.ghost.get("facts", ()):
            self.bad(I, "the package is written with the old lead and signature")
        if name(a[1]) != "argument2":
            self.bad(I, "the output is written to something other than the file named for it")
        if a[2][0] != "c" or a[2][1] == 0:
            self.bad(I, "the package is written without its archive")
        full = {(0,): "part", (1,): "full"}.get((a[4][1],) if a[4][0] == "c" else None)
        if full is None:
            r = e.rng(st, a[4])
            full = {((0, 0),): "part", ((1, 1),): "full"}.get(r)
        if full is None:
            f = st.ghost.get("facts", ())
            full = "full" if "full" in f else "part" if "nofull" in f else "?"
        for h in (0, 8):
            self.out(e, st, I, a[3], h, 8, sym(64, "written", full, h))
        self.note(st, "out", "package")
        return [(st, c_(0, 32))]

    def c_blocks(self, e, st, I, a):
        c = self.case
        v = sym(64, "blocks")
        e.refine(st, v, NZ)
        self.out(e, st, I, a[0], 0, 8, v)
        want = ["delta.ext_data_len", 0 if c["rpm_only"] else "files", 0 if c["rpm_only"] else "cpio", 0 if c["rpm_only"] else "count.cpio",
                "delta.ext_copies", c["delta"].get("ext_copies_count", "delta.ext_copies_count"), "old.unpacked" if c["from_rpm"] else 0, 1 if c["rpm_only"] else 0]
        got = [name(x) for x in a[1:9]]
        if c["rpm_only"]:
            got[3] = got[3] if got[3] == 0 else got[3]
        if got != want:
            k = [i for i in range(8) if got[i] != want[i]][0]
            self.bad(I, "the old data is set up with %s instead of %s" % (got[k], want[k]))
        return [(st, c_(0, 32))]

    def c_addinit(self, e, st, I, a):
        if name(a[4]) != "delta.add_data" or name(a[5]) != "delta.add_data_len" or a[1] != c_(0xffffffff, 32):
            self.bad(I, "the add block is not read from the delta's")
        return self.give(e, st, I, a[0], "addstream")

    def give(self, e, st, I, p, n):
        v = sym(64, n)
        e.refine(st, v, NZ)
        self.out(e, st, I, p, 0, 8, v)
        return [(st, c_(0, 32))]

    def c_patch(self, e, st, I, a):
        s = None
        if a[1][0] == "p" and a[1][1][0] == "G":
            g = self.M.globals.get(a[1][1][1])
            s = (g.get("str") or g.get("bytes")) if g else None
        s = s.encode() if isinstance(s, str) else bytes(s or b"")
        if name(a[0]) != "delta.head" or s.split(b"\0")[0] != b"cpio":
            self.bad(I, "the payload format in the new package's header is not set back to \"cpio\"")
        st.ghost["facts"] = tuple(sorted(set(st.ghost.get("facts", ())) | {"cpio"}))
        return [(st, c_(0, 32))]

    def c_header(self, e, st, I, a):
        ok = name(a[0]) == "delta.head" and "cpio" in st.ghost.get("facts", ())
        n = ("header",) if ok else ("other", "header")
        v = sym(64, *n)
        e.refine(st, v, NZ)
        l = sym(32, "len", *n)
        e.refine(st, l, ((1, 1 << 30),))
        self.out(e, st, I, a[1], 0, 8, v)
        self.out(e, st, I, a[2], 0, 4, l)
        return [(st, c_(0, 32))]

    def c_cswinit(self, e, st, I, a):
        want = ["leadsig"] + ([] if self.case["rpm_only"] else ["header"])
        if list(st.ghost.get("out", ())) != want:
            self.bad(I, "what precedes the archive is %s instead of %s" % (" + ".join(st.ghost.get("out", ())) or "nothing", " + ".join(want)))
        got = [name(x) for x in a[1:5]]
        w = ["delta.tgt_header_len", "fd", self.case["delta"].get("tgt_comp", "delta.tgt_comp"), "delta.tgt_comp_level"]
        if got != w:
            k = [i for i in range(4) if got[i] != w[i]][0]
            self.bad(I, "the archive is compressed with %s instead of %s" % (got[k], w[k]))
        return self.give(e, st, I, a[0], "csw")

    def c_cswfinish(self, e, st, I, a):
        if name(a[0]) != "csw":
            self.bad(I, "something other than the output is finished")
        if SH in st.mem:
            self.complete(e, st, I, "the output is finished")
            self.judge(e, st, I, "the output is finished although instructions may be left", self.val(e, st, "icount"))
        self.note(st, "out", "payload")
        v, l = sym(64, "payload"), sym(64, "len", "payload")
        e.refine(st, v, NZ)
        e.refine(st, l, ((1, 1 << 40),))
        self.out(e, st, I, a[1], 0, 8, v)
        self.out(e, st, I, a[2], 0, 8, l)
        return [(st, c_(0, 32))]

    # -------------------------------------------------------------- instructions
    def complete(self, e, st, I, what):
        self.judge(e, st, I, "%s although a piece of old data is not written" % what, ok=st.ghost.get("stage") is None)
        self.judge(e, st, I, "%s although an external copy may not be complete" % what, self.val(e, st, "left"))
        if not st.ghost.get("idone"):
            self.judge(e, st, I, "%s although external copies before it may be left" % what, self.val(e, st, "todo"))
            self.judge(e, st, I, "%s although an internal copy may be left" % what, self.val(e, st, "ilen"))

    def on_load(self, eng, st, I, t):
        oid, off = t
        if SH not in st.mem or st.ghost.get("lost"):
            return None
        if oid[0] == "D" and oid[1] in (at("delta", "int_copies"), at("delta", "ext_copies")) and I.size == 4:
            k = "ipos" if oid[1][-1] == "int_copies" else "epos"
            text = "%s are not taken one after the other" % ("internal copies" if k == "ipos" else "external copies")
            d = self.differ(eng, st, ("p", oid, off), self.get(st, k))
            if d is None or d[0][1]:
                self.judge(eng, st, I, text, d and d[0], ok=d is not None, one=d and d[1])
                return None
            d = d[0][0]
            if d in (8, 12):
                (self.next_int if k == "ipos" else self.next_ext)(eng, st, I)
                d -= 8
            if not self.judge(eng, st, I, text, ok=d in (0, 4) and self.get(st, k)[2] != -8):
                return None
            return self.get(st, {("ipos", 0): "itodo", ("ipos", 4): "ilen", ("epos", 0): "eoff", ("epos", 4): "elen"}[k, d])
        if I.size == 1 and st.ghost.get("stage") == "added":
            for k in ("buf", "abuf"):
                b = self.get(st, k)
                if b[0] == "p" and b[1] == oid:
                    return ("s", at(k, repr(off)), 8)
        return None

    def advance(self, st, k):
        p = self.get(st, k)
        self.set(st, k, ("p", p[1], plin(p[2], 8)))

    def next_int(self, e, st, I):
        self.complete(e, st, I, "the next internal copy begins")
        self.judge(e, st, I, "more internal copies are taken than there are", self.val(e, st, "icount"), 1)
        self.advance(st, "ipos")
        self.turn(st, 0)
        self.set(st, "icount", e.binop(st, I, "sub", 32, self.get(st, "icount"), c_(1, 32)))
        todo = self.new(e, st, I, "todo", 32)
        ln = self.new(e, st, I, "ilen", 32)
        self.set(st, "todo", todo)
        self.set(st, "itodo", todo)
        self.set(st, "ilen", ln)
        st.ghost["idone"] = 0
        self.copies += 1

    def next_ext(self, e, st, I):
        what = "the next external copy begins"
        self.judge(e, st, I, what + " although a piece of old data is not written", ok=st.ghost.get("stage") is None)
        self.judge(e, st, I, what + " although the one before it may not be complete", self.val(e, st, "left"))
        what = "more external copies are made than come before the internal one"
        self.judge(e, st, I, what, ok=not st.ghost.get("idone"))
        self.judge(e, st, I, what, self.val(e, st, "todo"), 1)
        self.advance(st, "epos")
        self.turn(st, 1)
        self.set(st, "done", e.binop(st, I, "add", 64, self.get(st, "done"), c_(1, 64)))
        self.set(st, "todo", e.binop(st, I, "sub", 32, self.get(st, "todo"), c_(1, 32)))
        eo, el = self.new(e, st, I, "eoff", 32), self.new(e, st, I, "elen", 32)
        self.set(st, "eoff", eo)
        self.set(st, "elen", el)
        self.set(st, "off", e.binop(st, I, "add", 64, self.get(st, "off"), ("o", "sext", 64, eo)))
        self.set(st, "left", ("o", "zext", 64, el))
        self.set(st, "blk", NIL)
        self.copies += 1

    def c_blockid(self, e, st, I, a):
        v = self.new(e, st, I, "blk", 64)
        if SH in st.mem and same(e, st, a[0], self.get(st, "off")):
            self.set(st, "blk", v)
        return [(st, v)]

    def c_next(self, e, st, I, a):
        g = lambda k: self.get(st, k)
        if name(a[0]) != "blocks":
            self.bad(I, "old data is taken from somewhere else")
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        x = lambda t, *r: self.against(e, st, I, t, *r)
        x("old data is taken from a place other than the one the instructions lead to", a[3], "off")
        x("the length of old data asked for is not what is left of the copy", a[4], "left")
        x("the count of copies done is not the number of external copies made", a[5], "done", 1)
        if g("blk")[:2] != ("c", 0):
            x("the block asked for is not the one the place is in", a[6], "blk")
        else:
            j("the block asked for is not the one the place is in", ok=self.merged(lin(e, st, a[6])) or self.merged(self.val(e, st, "off")))
        j("a piece of old data is not written", ok=st.ghost.get("stage") is None)
        n = self.new(e, st, I, "n", 64, ((1, 1 << 32),))
        e.refine(st, ("o", "icmp", 1, "ule", n, g("left")), ((1, 1),))
        self.out(e, st, I, a[2], 0, 8, n)
        t = ptr(e, st, a[1])
        self.set(st, "n", n)
        self.set(st, "buf", ("p", t[0], 0) if t[0] else NIL)
        self.set(st, "added", c_(0, 64))
        st.ghost["stage"] = "read"
        self.turn(st, 2)
        self.pieces += 1
        return [(st, c_(0, 32))]

    def c_addread(self, e, st, I, a):
        t = "the add block is not read as far as the piece of old data"
        self.judge(e, st, I, t, ok=name(a[0]) == "addstream" and st.ghost.get("stage") == "read")
        self.against(e, st, I, t, a[1], "n")
        t = ptr(e, st, a[2])
        self.set(st, "abuf", ("p", t[0], 0) if t[0] else NIL)
        st.ghost["stage"] = "added"
        return [(st, c_(0, 32))]

    def on_store(self, eng, st, I, t, v):
        oid, off = t
        if SH not in st.mem or st.ghost.get("lost") or st.ghost.get("stage") != "added":
            return
        b = self.get(st, "buf")
        if b[0] != "p" or b[1] != oid:
            return
        pos = (off, ()) if isinstance(off, int) else ptr(eng, st, ("p", ("D", "x"), off))[1]
        done, n = self.val(eng, st, "added"), self.val(eng, st, "n")
        fwd = add(pos, done, -1)
        back = add(add(add(pos, n, -1), done), (1, ()))     # from the last byte down
        if not zero(eng, st, back) and not self.judge(eng, st, I, "the add block is not added byte by byte", fwd):
            return
        parts = []

        def leaves(x):
            if x[0] == "o" and x[1] in ("zext", "sext", "trunc"):
                leaves(x[3])
            elif x[0] == "o" and x[1] == "add":
                leaves(x[3])
                leaves(x[4])
            else:
                parts.append(x[1] if x[0] == "s" else x)
        leaves(v)
        self.judge(eng, st, I, "what is stored is not the sum of old data and add block",
                   ok=sorted(parts, key=repr) == sorted([at("buf", repr(off)), at("abuf", repr(off))], key=repr))
        self.judge(eng, st, I, "more is added than there is of the piece of old data", add(n, done, -1), 1)
        self.turn(st, 3)
        self.set(st, "added", eng.binop(st, I, "add", 64, self.get(st, "added"), c_(1, 64)))

    def c_cswwrite(self, e, st, I, a):
        j = lambda t, *r, **k: self.judge(e, st, I, t, *r, **k)
        if name(a[0]) != "csw":
            self.bad(I, "data is written to something other than the output")
        stage = st.ghost.get("stage")
        if stage in ("read", "added"):
            b = self.get(st, "buf")
            t = ptr(e, st, a[1])
            w = "what is written is not the piece of old data read"
            j(w, t[1], ok=t[0] == b[1])
            self.against(e, st, I, w, a[2], "n")
            j("the add block is %s" % ("left out" if self.case["add"] else "added where there is none"),
              ok=(stage == "added") == bool(self.case["add"]))
            if stage == "added":
                j("the add block may not be added to all of the piece of old data",
                  add(self.val(e, st, "added"), self.val(e, st, "n"), -1), 0)
            for k, op in (("left", "sub"), ("off", "add")):
                self.set(st, k, e.binop(st, I, op, 64, self.get(st, k), self.get(st, "n")))
            if self.get(st, "blk")[:2] != ("c", 0):
                self.set(st, "blk", e.binop(st, I, "add", 64, self.get(st, "blk"), c_(1, 64)))
            for k in ("n", "added"):
                self.set(st, k, c_(0, 64))
            for k in ("buf", "abuf"):
                self.set(st, k, NIL)
            st.ghost["stage"] = None
        else:
            w = "new data is written before the external copies that come first may be complete"
            j("new data is written although no internal copy asks for it", ok=not st.ghost.get("idone"))
            j(w, self.val(e, st, "left"))
            j(w, self.val(e, st, "todo"))
            w = "the new data written is not what follows in the delta"
            d = self.differ(e, st, a[1], self.get(st, "iptr"))
            j(w, d and d[0], ok=d is not None, one=d and d[1])
            self.against(e, st, I, w, a[2], "ilen")
            p = self.get(st, "iptr")
            L = self.val(e, st, "ilen")
            self.set(st, "iptr", ("p", p[1], plin(p[2], L[0], L[1])))
            st.ghost["idone"] = 1
        return [(st, c_(0, 32))]

    zero32 = lambda p, e, st, I, a: [(st, c_(0, 32))]
    cut = {
        "read_deltarpm": c_readdelta, "rpm_read": c_read, "rpm_read_header": c_readhdr, "rpm_get_nevr": given(1, 8, "nevr"),
        "rpm_get_file_info": c_fileinfo, "rpm_get_digest_algo": given(1, 2, "algo"), "expand_sequence": c_expand,
        "rpm_is_sourcerpm": lambda p, e, st, I, a: [(st, c_(0, 1))],
        "rpm_signature_get_md5": c_sigmd5, "rpm_replace_lead_and_signature": c_replace, "rpm_write": c_write,
        "blocks_create": c_blocks, "decompstrm_init": c_addinit, "decompstrm_read": c_addread, "rpm_patch_payload_format": c_patch,
        "rpm_fetch_header": c_header, "compstrm_wrapper_init": c_cswinit, "compstrm_wrapper_write": c_cswwrite,
        "compstrm_wrapper_finish": c_cswfinish, "block_id": c_blockid, "blocks_next": c_next,
        "block_size": lambda p, e, st, I, a: [(st, c_(8192, 64))],
        "free_deltarpm": lambda p, e, st, I, a: [(st, None)], "rpm_destroy": zero32, "blocks_destroy": zero32,
        "decompstrm_destroy": zero32, "compstrm_wrapper_destroy": zero32,
    }


ITEMS = {"leadsig": ("delta.tgt_leadsig", ("delta", "tgt_leadsig_len"), 32), "header": ("header", ("len", "header"), 32),
         "payload": ("payload", ("len", "payload"), 64)}


def one(ctx, cfg, case):
    M = ctx.prog.mods[cfg]
    what = "%s delta %s%s" % ("an rpm-only" if case["rpm_only"] else "a standard",
                              "to a package file" if case["from_rpm"] else "to the installed package", "" if case["add"] else ", without add block")

    def bad(t, I):
        ctx.violation("apply:" + t, "drpm_apply()%s, applying %s: %s (configuration %s)" % (
            ", " + I.loc() if I is not None else "", what, t, cfg))
    p = Apply(M, case, bad)
    exits = p.run(ctx, cfg, "drpm_apply", fix(a0=argument(0) if case["from_rpm"] else "null", a1=argument(1), a2=argument(2)), caps=8)
    good = 0
    for st, v, I in exits:
        if not p.ok(st, v):
            continue
        good += 1
        out = list(st.ghost.get("out", ()))
        want = ["package"] if case["nodiff"] else ["leadsig"] + ([] if case["rpm_only"] else ["header"]) + ["payload"]
        if out != want:
            bad("success is reported with %s written instead of %s" % (" + ".join(out) or "nothing", " + ".join(want)), I)
    if not good and not ctx.violations:
        bad("no delta is ever applied", None)
    c = ctx.coverage
    for k, n in (("pieces", "pieces_judged"), ("copies", "copies_judged"), ("finals", "finals_judged"), ("judged", "obligations"),
                 ("undecided", "undecided")):
        c[n] = c.get(n, 0) + getattr(p, k)


def cases():
    for rpm_only in (0, 1):
        for from_rpm in (0, 1) if not rpm_only else (1,):
            for add_ in (0, 1) if not rpm_only else (0,):
                d = dict(type=rpm_only)
                if not add_:
                    d.update(add_data_len=0, add_data=0)
                if rpm_only:
                    d.update(tgt_comp=1)
                yield dict(rpm_only=rpm_only, from_rpm=from_rpm, add=add_, nodiff=0, delta=d)
    for i, x in ((0, 1), (1, 0)):
        yield dict(rpm_only=1, from_rpm=1, add=0, nodiff=0, delta=dict(type=1, add_data_len=0, add_data=0, tgt_comp=0, int_copies_count=i, ext_copies_count=x))
    yield dict(rpm_only=1, from_rpm=1, add=0, nodiff=1, delta=dict(type=1, add_data_len=0, add_data=0, tgt_comp=0, int_copies_count=0, ext_copies_count=0))


def applying(ctx):
    parallel(ctx, one, [(cfg, c) for cfg in ctx.configs for c in cases()])
    ctx.coverage["explanation"] = (
        "abstract interpretation of drpm_apply() with every part of the delta as a named symbol; the place, length and count the instructions "
        "lead to are carried along as expected values, loops are joined with value numbering, and every request for old data, addition and "
        "write is compared with them")
    ctx.require(ctx.coverage.get("pieces_judged", 0) > 3 or ctx.violations, "no pieces of old data are judged")
    done(ctx)
