"""The layout of delta files: what the writer emits, what the reader consumes, and what the values mean."""
from .. import models
from ..engine import Engine, Plugin, Obj, c_, NIL
from ..run import Broken, parallel
from .api import fix, leaf, done

D = "deltarpm"
ANY = "?"


def at(*n):
    return ("@",) + n


def sym(w, *n):
    return ("s", at(*n), w)


def name(v):
    """what a value is, in terms of the named things it was computed from"""
    if v is None:
        return ANY
    if v[0] == "c":
        return v[1] if v[2] > 1 else v[1]
    if v[0] == "s" and v[1][0] == "@":
        n = ".".join(str(x) for x in v[1][1:])
        return n
    if v[0] == "o" and v[1] == "zext":
        return name(v[3])
    if v[0] == "o" and v[1] == "trunc":
        n = name(v[3])
        # (the names are far shorter than 4 GiB)
        return n if n == ANY or isinstance(n, int) or n.startswith(("1+strlen", "strlen")) and v[2] == 32 else "%s:%d" % (n, v[2])
    if v[0] == "o" and v[1] == "sext":
        n = name(v[3])
        return n if n == ANY or isinstance(n, int) else "signed %s" % n
    if v[0] == "o" and v[1] in ("add", "mul"):
        a, b = sorted((name(v[3]), name(v[4])), key=str)
        if ANY in (a, b):
            return ANY
        return "%s%s%s" % (a, "+" if v[1] == "add" else "*", b)
    if v[0] == "p" and v[1][0] == "D" and v[1][1][0] == "@" and isinstance(v[2], int):
        return ".".join(str(x) for x in v[1][1][1:]) + ("+%d" % v[2] if v[2] else "")
    return ANY


def insts(F):
    m = F.__dict__.get("_byid")
    if m is None:
        m = F._byid = {I.id: I for B in F.blocks for I in B.insts}
    return m


def progression(F, t):
    """(first value, step) of an expression over a loop counter; None when it is none"""
    if t[0] == "c":
        return t[1], 0, None
    if t[0] == "o" and t[1] in ("zext", "sext", "trunc"):
        return progression(F, t[3])
    if t[0] == "o" and t[1] in ("add", "mul") and t[4][0] == "c":
        p = progression(F, t[3])
        if p is None:
            return None
        return (p[0] + t[4][1], p[1], p[2]) if t[1] == "add" else (p[0] * t[4][1], p[1] * t[4][1], p[2])
    if t[0] == "s" and t[1][0] == "iv":
        I = insts(F).get(t[1][1])
        if I is None or I.op != "phi":
            return None
        init = step = None
        for o, _ in I.incoming:
            if o[0] == "c":
                init = o[1]
            elif o[0] == "v":
                S = insts(F).get(o[1])
                if S is not None and S.op == "add" and ("v", I.id) in S.ops and any(x[0] == "c" for x in S.ops):
                    step = [x for x in S.ops if x[0] == "c"][0][1]
        if init is None or step is None:
            return None
        return init, step, I
    return None


def evaluate(eng, st, F, o, depth=0):
    if o[0] == "c" or o[0] != "v":
        return eng.opnd(st, o)
    if o[1] in st.env:
        return st.env[o[1]]
    I = insts(F).get(o[1])
    if I is None or I.op not in ("load", "gep", "zext", "trunc", "mul", "add", "shl", "sext") or depth > 6:
        return None
    s = st.copy()
    s.env = dict(s.env)
    for x in I.ops:
        if x[0] == "v" and x[1] not in s.env:
            v = evaluate(eng, st, F, x, depth + 1)
            if v is None:
                return None
            s.env[x[1]] = v
    return eng.simple(s, I)


def linear(v):
    """(factor, name, summand) of a bound; None when it is no linear expression of one named thing"""
    if v[0] == "c":
        c = v[1]
        return 0, None, c - (1 << v[2]) if c >> (v[2] - 1) else c
    if v[0] == "o" and v[1] in ("zext", "sext", "trunc"):
        return linear(v[3])
    if v[0] == "o" and v[1] in ("add", "mul", "shl"):
        a, b = linear(v[3]), linear(v[4])
        if a is None or b is None:
            return None
        if v[1] == "add":
            return None if a[1] and b[1] else (a[0] + b[0], a[1] or b[1], a[2] + b[2])
        if a[1] is None and v[1] == "mul":
            a, b = b, a
        if b[1] is not None:
            return None
        k = b[2] if v[1] == "mul" else 1 << b[2]
        return a[0] * k, a[1], a[2] * k
    n = name(v)
    return None if n == ANY else (1, n, 0)


SWAP = {"ugt": "ult", "sgt": "slt", "uge": "ule", "sge": "sle", "ult": "ugt", "slt": "sgt", "ule": "uge", "sle": "sge", "ne": "ne"}


def iterations(eng, st, F, phi):
    """how often a counting loop runs, as a name; None when not known"""
    init, step, _ = progression(F, ("s", ("iv", phi.id), phi.w))
    if step >> (phi.w - 1) or not step:
        return None
    by = insts(F)
    for I in F.blocks[phi.blk if isinstance(phi.blk, int) else phi.blk.idx].insts:
        if I.op != "icmp" or I.pred not in SWAP:
            continue
        for k in (0, 1):
            o, add = I.ops[k], 0
            while o[0] == "v" and o != ("v", phi.id) and o[1] in by and by[o[1]].op in ("zext", "sext", "add"):
                J = by[o[1]]
                if J.op == "add":
                    c = [x for x in J.ops if x[0] == "c"]
                    if not c:
                        break
                    add += c[0][1] - (1 << J.w) if c[0][1] >> (J.w - 1) else c[0][1]
                    o = [x for x in J.ops if x[0] != "c"][0]
                else:
                    o = J.ops[0]
            if o != ("v", phi.id):
                continue
            pred = I.pred if k == 0 else SWAP[I.pred]
            if pred not in ("ult", "slt", "ule", "sle", "ne"):
                continue
            v = evaluate(eng, st, F, I.ops[1 - k])
            b = linear(v) if v is not None else None
            if b is None or b[0] <= 0 or b[0] % step:
                continue
            d = b[2] - init - add + (1 if pred in ("ule", "sle") else 0)
            if pred == "ne" and d % step:
                continue
            m = -(-d // step)
            return "%s%s%s" % ("%d*" % (b[0] // step) if b[0] != step else "", b[1], "%+d" % m if m else "")
    return None


def place(eng, st, off):
    """where an access into an array of a delta goes: (first byte, stride, iterations), None for what is not known"""
    F = eng.stack[-1]
    if isinstance(off, int):
        return (off, 0, None)
    first, stride, phi = off[1], 0, None
    for t, k in off[2]:
        p = progression(F, t)
        if p is None or phi is not None and p[2] is not None:
            return None
        first += p[0] * k
        stride += p[1] * k
        phi = phi or p[2]
    n = None
    if phi is not None:
        n = iterations(eng, st, F, phi)
    return (first, stride, n)


class Trace(Plugin):
    """records an ordered trace of format events in the ghost state; states with different traces stay apart"""
    wants_mem = True
    arrays = ()
    cut = {}
    opts = {}
    elconst = None      # the value every element of the instruction lists has, in runs that decide its encoding

    def __init__(self):
        self.models = {"strlen": self.m_strlen}
        self.hits = {}

    def m_strlen(self, e, st, I, a):
        n = name(a[0])
        if n == ANY:
            return [(st, models.sym(e, st, I, ((0, 1 << 62),)), "ok")]
        v = sym(64, "strlen", n)
        e.refine(st, v, ((0, 1 << 30),))
        return [(st, v, "ok")]

    def ghost_key(self, st):
        return st.ghost.get("tr")

    def ghost_merge(self, a, b):
        return {k: v for k, v in a.items() if b.get(k) == v}

    def ev(self, st, *e):
        tr = st.ghost.get("tr", ())
        if not (tr and tr[-1] == e and e[0] in ("el", "elb")):
            tr += (e,)
        if len(tr) > 120:
            raise Broken("trace of format events does not end")
        st.ghost["tr"] = tr
        st.ghost.pop("ld", None)

    def on_load(self, eng, st, I, t):
        oid, off = t
        if oid[0] == "D" and oid[1][0] == "@" and oid[1][1] in self.arrays:
            ld = [x for x in st.ghost.get("ld", ()) if x[0] != oid[1][1]]
            st.ghost["ld"] = tuple(sorted(ld + [(oid[1][1], place(eng, st, off))], key=repr))
            if self.elconst is not None and oid[1][1] in LISTS and I.size == 4:
                return c_(self.elconst, 32)

    def elem(self, st):
        """array elements loaded since the last event"""
        return st.ghost.get("ld", ())

    def on_call(self, eng, st, I, F, args):
        f = self.cut.get(F.name)
        if f is None:
            return None
        self.hits[F.name] = self.hits.get(F.name, 0) + 1
        return f(self, eng, st, I, args)

    def run(self, ctx, cfg, root, setup, caps=16):
        M = ctx.prog.mods[cfg]
        for r in (root,) + tuple(self.cut):
            if r not in M.fns:
                raise Broken("%s() is not defined in configuration %s" % (r, cfg))
        eng = Engine(M, dict(models.MODELS, **self.models), self, dict(caps=(caps,) * 3, leaks=False, **self.opts))
        self.eng = eng
        exits = eng.run_root(root, setup)
        c = ctx.coverage
        c["runs"] = c.get("runs", 0) + 1
        c["exits_judged"] = c.get("exits_judged", 0) + len(exits)
        c["format_events"] = c.get("format_events", 0) + sum(self.hits.values())
        c.setdefault("functions", set()).update(eng.fns_seen)
        return exits

    def ok(self, st, v):
        r = self.eng.rng(st, v) if v is not None else None
        return bool(r) and r[0][0] == 0


def okret(st, I):
    return [(st, c_(0, 32))]


def obj(M, struct, init=None, prefix=()):
    """an object whose members are named symbols, or the given values"""
    o = Obj("ext", "sym", struct=struct)
    for n, (off, z) in leaf(M, struct).items():
        v = (init or {}).get(n, sym(z * 8, *(prefix + (n,))))
        if isinstance(v, int):
            v = c_(v, z * 8)
        o.fields[off] = (v, z)
    return o


def structat(k, struct, init=None, prefix=()):
    def f(eng, st, F, pid):
        s = st.env[pid]
        eng.refine(st, s, ((4096, (1 << 64) - 1),))
        st.mem[("D", s[1])] = obj(eng.M, struct, init, prefix)
        for v, z in st.mem[("D", s[1])].fields.values():
            if z == 8 and v[0] == "s" and eng.M and v[1][-1] in POINTERS:
                eng.refine(st, v, ((4096, (1 << 64) - 1),))
    return f


POINTERS = {"filename", "src_nevr", "sequence", "tgt_comp_param", "offadj_elems", "tgt_leadsig", "int_copies", "ext_copies",
            "add_data", "head", "int_data"}


# ------------------------------------------------------------------ the documented layout
def stream_layout(version, rpmonly):
    """items of the compressed part in order: (kind, what); what names members of the delta"""
    L = [("be32", "magic"), ("be32", "1+strlen.src_nevr"), ("bytes", "1+strlen.src_nevr", "src_nevr"), ("be32", "sequence_len"),
         ("bytes", "sequence_len", "sequence"), ("bytes", 16, "tgt_md5")]
    if version >= 2:
        L += [("be32", "tgt_size"), ("be32", "comp"), ("be32", "tgt_comp_param_len"),
              ("opt", "tgt_comp_param_len", "tgt_comp_param")]
    if version >= 3:
        L += [("be32", "tgt_header_len"), ("be32", "offadj_elems_count"), ("els", "offadj_elems", 0), ("els", "offadj_elems", 1)]
    L += [("be32", "tgt_leadsig_len"), ("bytes", "tgt_leadsig_len", "tgt_leadsig"), ("be32", "payload_fmt_off"),
          ("be32", "int_copies_count"), ("be32", "ext_copies_count"), ("els", "int_copies", 0), ("els", "int_copies", 1),
          ("els", "ext_copies", 0), ("els", "ext_copies", 1), ("be64" if version >= 3 else "be32", "ext_data_len")]
    if rpmonly:
        L += [("be32", 0)]
    else:
        L += [("be32", "add_data_len"), ("opt", "add_data_len", "add_data")]
    L += [("be64" if version >= 3 else "be32", "int_data_len"), ("data",)]
    return L


# ------------------------------------------------------------------ writer
def w_be(n):
    def f(p, e, st, I, a):
        el = p.elem(st)
        if el:
            p.ev(st, "el", n, tuple(el), a[1][1] if p.elconst is not None and a[1][0] == "c" else None)
        else:
            v = a[1]
            while v[0] == "o" and v[1] == "trunc" and e.rng(st, v[3]) and e.rng(st, v[3])[-1][1] >> v[2] == 0:
                v = v[3]        # nothing is cut off
            p.ev(st, n, name(v))
        return okret(st, I)
    return f


def w_bytes(p, e, st, I, a):
    el = p.elem(st)
    d = name(a[2])
    if d == ANY and a[2][0] == "p":
        o = st.mem.get(a[2][1])
        if o is not None and o.struct == D and isinstance(a[2][2], int):
            d = [n for n, (off, z) in e.M.fields[D].items() if off == a[2][2]]
            d = d[0] if d else ANY
        elif o is not None and isinstance(a[2][2], int) and a[1][0] == "c" and a[1][1] <= 8:
            b = [e.load(st, a[2][1], a[2][2] + k, 1) for k in range(a[1][1])]
            if all(x[0] == "c" for x in b):
                d = "'%s'" % bytes(x[1] for x in b).decode("latin1")
    if el:
        p.ev(st, "elb", tuple(el))
    else:
        p.ev(st, "bytes", name(a[1]), d)
    return okret(st, I)


def w_init(p, e, st, I, a):
    out(e, st, a[0], sym(64, "stream"), 8)
    p.ev(st, "init", name(a[2]), name(a[3]))
    return okret(st, I)


def out(e, st, p, v, size):
    t = p if p[0] == "p" else ("p", ("D", p[1]), 0) if p[0] == "s" else None
    if t is None:
        return
    if t[1] not in st.mem:
        st.mem[t[1]] = Obj("ext", "sym")
    e.store(st, t[1], t[2], size, v)
    if v[0] == "s" and size == 8:
        e.refine(st, v, ((4096, (1 << 64) - 1),))


def w_finish(p, e, st, I, a):
    out(e, st, a[1], sym(64, "strm_data"), 8)
    out(e, st, a[2], sym(64, "strm_data_len"), 8)
    p.ev(st, "finish")
    return okret(st, I)


def w_enc(p, e, st, I, a):
    out(e, st, a[0], sym(32, "comp", name(a[1]), name(a[2])), 4)
    return [(st, c_(1, 1 if I.w == 1 else I.w))]


def w_header(p, e, st, I, a):
    out(e, st, a[1], sym(64, "header"), 8)
    out(e, st, a[2], sym(32, "header_size"), 4)
    p.ev(st, "fetch_header", name(a[0]))
    return okret(st, I)


def w_note(n, *idx):
    def f(p, e, st, I, a):
        p.ev(st, n, *[name(a[k]) for k in idx])
        return okret(st, I)
    return f


def raw_name(e, st, ptr, ln):
    d = name(ptr)
    if d == ANY and ptr[0] == "p" and ln[0] == "c" and ln[1] <= 8 and isinstance(ptr[2], int):
        o = st.mem.get(ptr[1])
        if ptr[1][0] == "G":
            g = e.M.globals.get(ptr[1][1])
            if g and g.get("bytes"):
                return "'%s'" % g["bytes"][ptr[2]:ptr[2] + ln[1]].decode("latin1")
        if o is not None:
            b = [e.load(st, ptr[1], ptr[2] + k, 1) for k in range(ln[1])]
            if all(x[0] == "c" for x in b):
                d = "'%s'" % bytes(x[1] for x in b).decode("latin1")
    return d


class Writer(Trace):
    arrays = ("offadj_elems", "int_copies", "ext_copies", "int_data")
    cut = {"compstrm_write_be32": w_be("be32"), "compstrm_write_be64": w_be("be64"), "compstrm_write": w_bytes,
           "compstrm_init": w_init, "compstrm_finish": w_finish, "compstrm_destroy": lambda p, e, st, I, a: okret(st, I),
           "deltarpm_encode_comp": w_enc, "rpm_fetch_header": w_header,
           "rpm_signature_empty": w_note("sig_empty", 0), "rpm_signature_set_size": w_note("sig_size", 0, 1),
           "rpm_signature_set_md5": w_note("sig_md5", 0), "rpm_signature_reload": w_note("sig_reload", 0),
           "rpm_write": w_note("rpm_write", 0, 1, 2, 3),
           "write_be32": lambda p, e, st, I, a: (p.ev(st, "raw32", name(a[1])), okret(st, I))[1]}

    def __init__(self):
        super().__init__()
        self.models.update({"write": self.m_write, "MD5_Update": self.m_md5})

    def m_write(self, e, st, I, a):
        self.ev(st, "raw", name(a[2]), raw_name(e, st, a[1], a[2]))
        return [(st, a[2] if a[2][0] != "s" or a[2][2] == 64 else a[2], "ok")]

    def m_md5(self, e, st, I, a):
        self.ev(st, "md5", name(a[2]), name(a[1]))
        return [(st, c_(1, 32), "ok")]


LISTS = ("offadj_elems", "int_copies", "ext_copies")
# a number whose sign the file keeps in its top bit, apart from its magnitude
TOP = 1 << 31
SAMPLES = [0, 1, 2, 0x100, 0x10000, 0x12345678, 0x40000000, TOP - 1, TOP + 1, TOP + 2, TOP + 0x100, TOP + 0x10000, 0x89abcdef, 0xc0000000, (1 << 32) - 1]


def signed(x):
    return x - (1 << 32) if x >> 31 else x


def mirrored(x):
    """what a negative number in two's complement is in the file, and back"""
    return x if x < TOP else TOP + ((1 << 32) - x) & (1 << 32) - 1 if x != TOP else x


SIGNED = {("offadj_elems", 1), ("ext_copies", 0)}


def els_ok(place, which):
    """does an array access of a loop go through the right half of all pairs, in order?  unknowns pass"""
    arr, par, count = which
    if place is None:
        return True
    first, stride, n = place
    return first == 4 * par and stride in (8,) and (n is None or n == count)


def match_writer(tr, version, rpmonly, const=None):
    """None, or what is wrong with the trace of one successful path"""
    tr = list(tr)
    L = stream_layout(version, rpmonly)
    if not tr or tr[0] != ("init", "comp", "comp_level"):
        return "the stream is not opened with the delta's compression type and level"
    i = 1

    def cur():
        return tr[i] if i < len(tr) else ("the end",)
    for item in L:
        e = cur()
        want = "%s" % (item[-1],)
        if item[0] == "els":
            arr, par = item[1:]
            if e[0] == "el" and len(e[2]) == 1 and e[2][0][0] == arr and \
                    (e[2][0][1] is None or e[2][0][1][0] == 4 * par):
                if not els_ok(e[2][0][1], (arr, par, arr.replace("elems", "elems_count") if "elems" in arr else arr + "_count")):
                    return "the %s members of the pairs in %s are not written one by one and all of them (%s)" % (
                        ("first", "second")[par], arr, e[2][0][1])
                if e[1] != "be32":
                    return "members of %s are written as %s" % (arr, e[1])
                if const is not None and e[3] != (mirrored(const) if (arr, par) in SIGNED else const):
                    return "%d as the %s member of a pair in %s is written as %s" % (
                        signed(const), ("first", "second")[par], arr, "something depending on more" if e[3] is None else hex(e[3]))
                i += 1
            continue
        if item[0] == "data":
            if e == ("bytes", "int_data_len", "int_data"):
                i += 1
            elif e[0] == "elb":
                d = dict(e[1])
                if set(d) != {"int_copies", "int_data"}:
                    return "the internal data is written from %s" % sorted(d)
                for k, w in (("int_copies", 4), ("int_data", 0)):
                    if d[k] is not None and (d[k][:2] != (w, 8) or d[k][2] not in (None, "int_copies_count")):
                        return "the pieces of internal data are not written one by one and all of them (%s)" % (d[k],)
                i += 1
            continue
        if item[0] == "opt":
            if e[0] == "bytes" and e[2] == item[2]:
                if e[1] != item[1]:
                    return "%s is written with length %s" % (item[2], e[1])
                i += 1
            elif e[0] == "bytes":
                return "%s is written where %s belongs" % (e[2], item[2])
            continue
        if item[1] == "magic":
            if e != ("bytes", 4, "'DLT%d'" % version) and e != ("be32", 0x444c5430 + version):
                return "the stream does not start with the format version's magic but with %s" % (show(e),)
        elif item[1] == "comp":
            if e != ("be32", "comp.tgt_comp.tgt_comp_level"):
                return "%s is written where the target's compression type and level belong" % show(e)
        elif e != item:
            return "%s is written where %s belongs" % (show(e), show(item))
        i += 1
    if cur() != ("finish",):
        return "%s follows the internal data" % show(cur())
    rest = tr[i + 1:]
    if rpmonly:
        want = [("raw", 4, "'drpm'"), ("raw", 4, "'DLT%d'" % version), ("raw32", "1+strlen.head"), ("raw", "1+strlen.head", "head"),
                ("raw32", "add_data_len"), ("raw", "add_data_len", "add_data"), ("raw", "strm_data_len", "strm_data")]
        if rest != want:
            for x, y in zip(rest + [("nothing",)] * 9, want + [("nothing",)]):
                if x != y:
                    return "outside the compressed part, %s is written where %s belongs" % (show(x), show(y))
    else:
        md5 = [x[1:] for x in rest if x[0] == "md5"]
        if md5 != [("header_size", "header"), ("strm_data_len", "strm_data")]:
            return "the signature's digest is not taken over the target header followed by the compressed part but over %s" % (md5,)
        body = [x for x in rest if x[0] in ("rpm_write", "raw", "raw32")]
        if body != [("rpm_write", "head", "filename", 0, 0), ("raw", "strm_data_len", "strm_data")]:
            return "the file is not the target's lead, signature and header followed by the compressed part but %s" % (
                "; ".join(map(show, body)),)
        sig = [x for x in rest if x[0].startswith("sig_") or x[0] == "rpm_write"]
        if [x[0] for x in sig][:1] != ["sig_empty"] or sorted(tuple(y.replace(":32", "") if isinstance(y, str) else y for y in x) for x in sig[1:3]) != [("sig_md5", "head"), ("sig_size", "head", "header_size+strm_data_len")] \
                or [x[0] for x in sig][3:] != ["sig_reload", "rpm_write"]:
            return "the signature written is not a new one holding size and digest of what follows: %s" % "; ".join(map(show, sig))
    return None


def show(x):
    return " ".join(str(y) for y in x)


def write_case(ctx, cfg, version, t, const):
    p = Writer()
    p.elconst = const
    exits = p.run(ctx, cfg, "write_deltarpm", fix(a0=structat(0, D, dict(version=version, type=t))))
    seen = set()
    whole = {"offadj_elems": 0, "int_copies": 0, "ext_copies": 0, "data": 0, "param": 0, "add": 0}
    kind = ("standard", "rpm-only")[t]
    for st, v, I in exits:
        if not p.ok(st, v):
            continue
        tr = st.ghost.get("tr")
        if tr in seen:
            continue
        seen.add(tr)
        why = match_writer(tr or (), version, t, const)
        if why:
            ctx.violation("v%d:%d:%s" % (version, t, why), "write_deltarpm(), %s delta of format version %d: %s (configuration %s)"
                          % (kind, version, why, cfg))
        for e in tr or ():
            if e[0] == "el":
                for a, pl in e[2]:
                    whole[a] = whole.get(a, 0) | (1 if pl is None or pl[0] == 0 else 2)
            if e[0] == "elb" or e[0] == "bytes" and e[2] == "int_data":
                whole["data"] = 3
            if e[0] == "bytes" and e[2] == "tgt_comp_param":
                whole["param"] = 3
            if e[0] == "bytes" and e[2] == "add_data" or t:
                whole["add"] = 3
    ctx.coverage["successful_paths_matched"] = len(seen)
    if not seen:
        ctx.violation("v%d:%d:never" % (version, t), "write_deltarpm() never succeeds for %s deltas of format version %d (configuration %s)"
                      % (kind, version, cfg))
        return
    for a, w in whole.items():
        if w != 3 and not (a == "offadj_elems" and version < 3 or a == "param" and version < 2):
            ctx.violation("v%d:%d:missing:%s" % (version, t, a), "write_deltarpm() leaves out %s in %s deltas of format version %d (configuration %s)"
                          % ({"data": "the internal data", "param": "tgt_comp_param", "add": "add_data"}.get(a, "members of " + a),
                             kind, version, cfg))


def writer(ctx):
    items = [(write_case, c, v, t, None) for c in ctx.configs for v, t in ((3, 0), (3, 1), (2, 0), (1, 0))]
    items += [(write_case, c, 3, 0, x) for c in ctx.configs for x in SAMPLES]
    parallel(ctx, _case, items)
    ctx.coverage["explanation"] = (
        "abstract interpretation of write_deltarpm with every member of the delta a distinct symbol, for each format version and type; the "
        "stream and package primitives are cut and record what they are given; loops over the instruction arrays are summarised by "
        "their induction variable (first element, stride, number of iterations).  Rule: the trace of every successful path is the documented "
        "layout.  The encoding of list members is decided by constant propagation of %d values of all bit lengths and both signs" % len(SAMPLES))
    done(ctx)


# ------------------------------------------------------------------ reader
def it(k, w):
    return sym(w, "it", k)


def r_be(n, w):
    def f(p, e, st, I, a):
        ptr = a[1]
        k = len(st.ghost.get("tr", ()))
        if "rd" in st.ghost:
            st.ghost.pop("rd")
            p.ev(st, "unused", n)
        if ptr[0] == "p" and ptr[1] in st.mem and (not isinstance(ptr[2], int) or st.mem[ptr[1]].kind == "heap"):
            v = c_(p.elconst, w) if p.elconst is not None else e.fresh(st, ("i", I.id), w)
            p.element(st, n, ptr[1], place(e, st, ptr[2]), ptr[2], v)
            e.store(st, ptr[1], ptr[2], w // 8, v)
            return okret(st, I)
        if w == 32 and any((I.blk if isinstance(I.blk, int) else I.blk.idx) in L for L in I.fn.loops.values()):
            # read into a variable first, to be stored into a list later
            v = c_(p.elconst, w) if p.elconst is not None else e.fresh(st, ("i", I.id), w)
            st.ghost["rd"] = n
            out(e, st, ptr, v, 4)
            return okret(st, I)
        v = p.fixed.get((n, k))
        v = c_(v, w) if v is not None else it(k, w)
        p.ev(st, n, k)
        if v[0] == "s" and n != "raw32":
            st.ghost["it"] = st.ghost.get("it", ()) + (("val", v),)
        out(e, st, ptr, v, w // 8)
        return okret(st, I)
    return f


def where(e, st, ptr):
    if ptr[0] == "p" and ptr[1] in st.mem and st.mem[ptr[1]].struct == D and isinstance(ptr[2], int):
        d = [n for n, (off, z) in e.M.fields[D].items() if off == ptr[2]]
        return d[0] if d else ANY
    if ptr[0] in ("p", "s"):
        return ("val", ptr)
    return ANY


def r_bytes(p, e, st, I, a):
    p.ev(st, "bytes", name(a[1]), where(e, st, a[2]))
    return okret(st, I)


def r_init(p, e, st, I, a):
    out(e, st, a[0], sym(64, "stream"), 8)
    if a[2] != NIL and a[2][0] != "c":
        out(e, st, a[2], sym(16, "strm_comp"), 2)
    p.ev(st, "init")
    return okret(st, I)


def r_decode(p, e, st, I, a):
    out(e, st, a[1], sym(16, "deccomp", name(a[0])), 2)
    if a[2][0] != "c":
        out(e, st, a[2], sym(16, "declevel", name(a[0])), 2)
    return [(st, c_(1, I.w))]


def r_rpm(p, e, st, I, a):
    out(e, st, a[0], sym(64, "rpm"), 8)
    p.ev(st, "rpm_read", name(a[1]), name(a[2]), name(a[3]))
    return okret(st, I)


class Reader(Trace):
    cut = {"decompstrm_read_be32": r_be("be32", 32), "decompstrm_read_be64": r_be("be64", 64), "decompstrm_read": r_bytes,
           "decompstrm_init": r_init, "decompstrm_destroy": lambda p, e, st, I, a: okret(st, I),
           "deltarpm_decode_comp": r_decode, "rpm_read": r_rpm,
           "rpm_get_comp": lambda p, e, st, I, a: (out(e, st, a[1], sym(16, "rpmcomp", name(a[0])), 2), okret(st, I))[1],
           "rpm_size_full": lambda p, e, st, I, a: [(st, sym(32, "rpm_size_full", name(a[0])))],
           "read_be32": r_be("raw32", 32)}

    def __init__(self, fixed):
        super().__init__()
        self.fixed = fixed
        self.models.update({"read": self.m_read, "lseek": self.m_seek})
        self.models["lseek64"] = self.models["lseek"]

    def m_read(self, e, st, I, a):
        self.ev(st, "raw", name(a[2]), where(e, st, a[1]))
        return [(st, a[2], "ok")]

    def m_seek(self, e, st, I, a):
        self.ev(st, "seek", name(a[1]), name(a[2]))
        return [(st, c_(0, 64), "ok")]

    def on_store(self, eng, st, I, t, v):
        tr = st.ghost.get("tr", ())
        if t[0] in st.mem and st.mem[t[0]].struct == D and isinstance(t[1], int):
            fl = {k: x for k, x in st.ghost.get("fl", ())}
            fl.pop(t[1], None)
            if v[0] == "o" and name(v) != ANY:
                fl[t[1]] = name(v)
            st.ghost["fl"] = tuple(sorted(fl.items()))
        if I.size != 4 or t[0] not in st.mem or st.mem[t[0]].kind != "heap":
            return
        if "rd" in st.ghost:
            self.element(st, st.ghost.pop("rd"), t[0], place(eng, st, t[1]), t[1], v)
        elif self.elconst is not None and tr and tr[-1][0] == "el" and tr[-1][2] == ("val", ("p", t[0], 0)) and tr[-1][3] == place(eng, st, t[1]):
            self.element(st, tr[-1][1], t[0], tr[-1][3], t[1], v)

    def element(self, st, n, oid, pl, off, v):
        """a number becomes a member of a list; the last one counts when it is changed in place"""
        tr = st.ghost.get("tr", ())
        val = v[1] if v[0] == "c" and self.elconst is not None else None
        e = ("el", n, ("val", ("p", oid, 0)), pl)
        if tr and tr[-1][:4] == e:
            tr = tr[:-1]
        st.ghost["tr"] = tr + (e + (val,),)
        if len(tr) > 120:
            raise Broken("trace of format events does not end")
        st.ghost["last"] = (oid, off, v) if self.elconst is not None else None

    def on_load(self, eng, st, I, t):
        l = st.ghost.get("last")
        if l and l[0] == t[0] and l[1] == t[1] and I.size == 4:
            return l[2]

    def on_return(self, eng, st, I, v):
        def dead(x):
            if isinstance(x, tuple) and x and x[0] == "val":
                return x[1][0] == "p" and (x[1][1] not in st.mem or st.mem[x[1][1]].status == "freed" or
                                           st.mem[x[1][1]].kind == "alloca" and x[1][1][0] == "A" and len(eng.stack) == 1)
            return isinstance(x, tuple) and any(dead(y) for y in x)
        tr = st.ghost.get("tr")
        if tr and dead(tr):
            st.ghost["tr"] = tuple(("dead",) if dead(x) else x for x in tr)


def match_reader(p, st, delta, version, rpmonly):
    M = p.eng.M
    tr = list(st.ghost.get("tr", ()))
    o = st.mem[delta]
    F = M.fields[D]
    wide = dict(st.ghost.get("fl", ()))

    def field(n):
        off, z = F[n]
        x = o.fields.get(off)
        if x is None:
            return c_(0, z * 8) if o.default == "zero" else None
        return x[0]

    def isit(n, k, w):
        v = field(n)
        if v == it(k, w) or wide.get(F[n][0]) == "it.%d" % k:
            return True
        return False
    i = 0

    def cur():
        return tr[i] if i < len(tr) else ("the end",)
    if rpmonly:
        for item in (("raw32", "magic"), ("raw32", "magic"), ("raw32", "length"), ("raw", "head.tgt_nevr"), ("raw32", "add_data_len"), ("raw", "add_data")):
            e = cur()
            if e[0] != item[0]:
                return "%s is read where %s belongs" % (show(e), item[1])
            if item[0] == "raw":
                if e[1] != "it.%d" % (i - 1):
                    return "%s is not read with the length that precedes it" % item[1]
                if e[2] != ("val", field(item[1])):
                    return "%s does not end up in the delta" % item[1]
            elif item[1] == "add_data_len" and not isit("add_data_len", i, 32):
                return "add_data_len does not end up in the delta"
            i += 1
    else:
        if cur()[0] != "raw32":
            return "the magic is not read"
        i += 1
        if cur()[0] != "rpm_read" or cur()[2:] != (0, 0):
            return "the target's header is not read"
        i += 1
        e = cur()
        if e != ("seek", "rpm_size_full.rpm", 0):
            return "the compressed part is not looked for behind the target's header (%s)" % show(e)
        i += 1
        if field("head") != sym(64, "rpm"):
            return "the target's header does not end up in the delta"
        if version < 2 and field("tgt_comp") != sym(16, "rpmcomp", "rpm"):
            return "the target's compression type is not taken from its header"
    if cur() != ("init",):
        return "%s precedes the compressed part" % show(cur())
    if field("comp") != sym(16, "strm_comp"):
        return "the delta's compression type is not the one detected"
    i += 1
    lens = {}
    for item in stream_layout(version, rpmonly):
        e = cur()
        kind = item[0]
        if kind in ("be32", "be64"):
            if e != (kind, i):
                return "%s is read where %s belongs" % (show(e), show(item))
            n = item[1]
            w = 32 if kind == "be32" else 64
            if n == "comp":
                if field("tgt_comp") != sym(16, "deccomp", "it.%d" % i) or field("tgt_comp_level") != sym(16, "declevel", "it.%d" % i):
                    return "the target's compression type and level are not taken from their place"
            elif n == 0:
                r = p.eng.rng(st, it(i, 32))
                if r != ((0, 0),):
                    return "additional data in the compressed part of an rpm-only delta is accepted"
            elif n in F and not isit(n, i, w) and not (
                    n == "add_data_len" and field(n) == c_(0, 32) and p.eng.rng(st, it(i, 32)) == ((0, 0),)):
                return "%s does not end up in the delta" % n
            lens[n] = "it.%d" % i
            if n == "sequence_len":
                r = p.eng.rng(st, it(i, 32))
                if not r or r[0][0] < 16 or rpmonly and r != ((16, 16),):
                    return "a sequence of unsuitable length is accepted (%s)" % (r,)
            if n == "tgt_header_len" and rpmonly and p.eng.rng(st, it(i, 32))[0][0] == 0:
                return "an rpm-only delta without target header is accepted"
            if n == "tgt_leadsig_len" and p.eng.rng(st, it(i, 32))[0][0] < 112:
                return "a target lead and signature shorter than any is accepted"
            if n.endswith("_count") if isinstance(n, str) else False:
                if p.eng.rng(st, it(i, 32))[-1][1] > (1 << 32) // 8:
                    return "a count of %s is accepted whose size in bytes cannot be represented" % n[:-6]
            i += 1
        elif kind in ("bytes", "opt", "data"):
            n, ln = ("int_data", lens["int_data_len"]) if kind == "data" else (item[2], item[1] if item[1] == 16 else lens[item[1]])
            if e[0] != "bytes" and kind != "bytes":
                # nothing there: only when its length is zero
                k = int(str(ln).split(".")[1])
                r = p.eng.rng(st, it(k, 64 if kind == "data" and version == 3 else 32))
                if not r or r[-1][1] != 0 and kind == "opt":
                    return "%s is left unread although its length need not be zero" % n
                continue
            if e[0] != "bytes":
                return "%s is read where %s belongs" % (show(e), n)
            if e[1] != ln:
                return "%s is read with length %s" % (n, e[1])
            if item[1:] == (16, "tgt_md5"):
                if e[2] != "tgt_md5":
                    return "tgt_md5 does not end up in the delta"
            elif e[2] != ("val", field(n)):
                return "%s does not end up in the delta" % n
            i += 1
        elif kind == "els":
            arr, par = item[1:]
            if e[0] == "el" and e[2] == ("val", field(arr)) and (e[3] is None or e[3][0] == 4 * par):
                if not els_ok(e[3], (arr, par, lens[arr.replace("elems", "elems_count") if "elems" in arr else arr + "_count"])):
                    return "the %s members of the pairs in %s are not read one by one and all of them (%s)" % (("first", "second")[par], arr, e[3])
                c = p.elconst
                if c is not None and e[4] != (mirrored(c) if (arr, par) in SIGNED else c):
                    return "%s as the %s member of a pair in %s is read as %s" % (
                        hex(c), ("first", "second")[par], arr, "something depending on more" if e[4] is None else signed(e[4]))
                p.loops.add((arr, par))
                i += 1
    if i != len(tr):
        return "%s follows the internal data" % show(cur())
    if field("version") not in (c_(version, 16),) and p.eng.rng(st, field("version")) != ((version, version),):
        v = field("version")
        if v is None or v[0] == "c":
            return "the format version recorded is not the one in the file"
    if field("type") != c_(rpmonly, 16):
        return "the type recorded is not the one in the file"
    if field("int_data_as_ptrs") != c_(0, 8):
        return "the internal data is marked as pieces"
    return None


DLT = 0x444c5430


def empty_delta(eng, st, F, pid):
    s = st.env[pid]
    eng.refine(st, s, ((4096, (1 << 64) - 1),))
    st.mem[("D", s[1])] = Obj("ext", "zero", struct=D)


def read_case(ctx, cfg, version, t, const):
    fixed = {("raw32", 0): 0x6472706d, ("raw32", 1): DLT + 3, ("be32", 7): DLT + version} if t else \
        {("raw32", 0): 0xedabeedb, ("be32", 4): DLT + version}
    p = Reader(fixed)
    p.loops = set()
    p.elconst = const
    exits = p.run(ctx, cfg, "read_deltarpm", fix(a0=empty_delta, a1="ptr"))
    good = 0
    which = (("standard", "rpm-only")[t], version)
    for st, v, I in exits:
        if not p.ok(st, v):
            continue
        good += 1
        why = match_reader(p, st, ("D", ("e", 0)), version, t)
        if why:
            ctx.violation("v%d:%d:%s" % (version, t, why), "read_deltarpm(), %s delta of format version %d: " % which +
                          "%s (configuration %s)" % (why, cfg))
    ctx.coverage["successful_paths_matched"] = good
    if not good:
        ctx.violation("v%d:%d:never" % (version, t), "read_deltarpm() never succeeds for %s deltas of format version %d " % which +
                      "(configuration %s)" % cfg)
        return
    for arr in ("offadj_elems", "int_copies", "ext_copies"):
        for par in (0, 1):
            if arr == "offadj_elems" and version < 3:
                continue
            if (arr, par) not in p.loops:
                ctx.violation("v%d:%d:missing:%s" % (version, t, arr), "read_deltarpm() never reads the %s members of the pairs in %s "
                              "(format version %d, configuration %s)" % (("first", "second")[par], arr, version, cfg))


BAD = (("an unknown magic", {("raw32", 0): 0x64727070}), ("an unknown magic", {("raw32", 0): 0xedabeeda}),
       ("an rpm-only delta of version 2", {("raw32", 0): 0x6472706d, ("raw32", 1): DLT + 2}),
       ("an rpm-only delta whose parts disagree on the version", {("raw32", 0): 0x6472706d, ("raw32", 1): DLT + 3, ("be32", 7): DLT + 2}),
       ("version 0", {("raw32", 0): 0xedabeedb, ("be32", 4): DLT}),
       ("version 4", {("raw32", 0): 0xedabeedb, ("be32", 4): DLT + 4}),
       ("no magic in the compressed part", {("raw32", 0): 0xedabeedb, ("be32", 4): 0x444c5533}),
       ("no magic in the compressed part", {("raw32", 0): 0xedabeedb, ("be32", 4): 0x454c5433}))


def read_bad(ctx, cfg, what, fixed):
    p = Reader(fixed)
    ctx.coverage["malformed_kinds_refused"] = 1
    for st, v, I in p.run(ctx, cfg, "read_deltarpm", fix(a0=empty_delta, a1="ptr")):
        if p.ok(st, v):
            ctx.violation("accepts:" + what, "read_deltarpm() accepts %s (configuration %s)" % (what, cfg))


def _case(ctx, f, *a):
    f(ctx, *a)


def reader(ctx):
    items = [(read_case, c, v, t, None) for c in ctx.configs for v, t in ((3, 0), (3, 1), (2, 0), (1, 0))]
    items += [(read_case, c, 3, 0, x) for c in ctx.configs for x in SAMPLES]
    items += [(read_bad, c, w, f) for c in ctx.configs for w, f in BAD]
    parallel(ctx, _case, items)
    ctx.coverage["explanation"] = (
        "abstract interpretation of read_deltarpm per format version and type; the stream and package primitives are cut, each integer read is "
        "a distinct symbol and each buffer filled is remembered.  Rule: on every successful path the items are read in the documented order with "
        "the lengths that precede them, and each ends up in the member of the delta it belongs to; malformed magics, versions and lengths never succeed.  The decoding of list members is "
        "decided by constant propagation of %d values of all bit lengths and both signs" % len(SAMPLES))
    done(ctx)
