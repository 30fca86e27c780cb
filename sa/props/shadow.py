"""What a program should do, carried along beside what it does: expected values, compared as linear terms."""
from ..engine import Obj, c_, t_syms
from .conduit import lin, add, bounds, zero, ptr
from .format import Trace

SH = ("G", "@shadow")


def vn(e, st, v):
    if v[0] == "p":
        return ptr(e, st, v)[1]
    L = lin(e, st, v)
    return L[0], tuple(sorted(L[1], key=repr))


class Shadowed(Trace):
    """expected values live in an object of their own, so joins of states keep their relation to the program's"""
    slots = {}          # name -> size
    opts = {"terms": 40, "vn": vn}
    turns = 2           # turns of a loop that are told apart: the last stands for all later ones
    marks = ()          # members of the ghost state that keep states apart

    def __init__(self, bad):
        super().__init__()
        self.bad = lambda I, t: bad(t, I)
        self.judged = self.undecided = 0
        self.unlike = []
        self.at = {k: 16 * i for i, k in enumerate(self.slots)}

    def ghost_key(self, st):
        return tuple(st.ghost.get(k) for k in self.marks + ("lost", "turns"))

    def begin(self, st, init):
        st.mem[SH] = Obj("ext", "sym")
        for k, n in self.slots.items():
            self.set(st, k, init.get(k, c_(0, n * 8)))

    def get(self, st, k):
        o = st.mem[SH]
        return o.fields[self.at[k]][0]

    def set(self, st, k, v):
        st.wobj(SH).fields[self.at[k]] = (v, self.slots[k])

    def turn(self, st, k):
        """the first turns of every loop are kept apart: what joins blur is still judged in them"""
        t = list(st.ghost.get("turns", (0,) * 4))
        t[k] = min(t[k] + 1, self.turns)
        st.ghost["turns"] = tuple(t)

    def facts(self, e, st, signed=True):
        """linear expressions that conditions on the path say are at most zero"""
        l = []
        self.unlike = []
        for t, r in st.cons.items():
            if t[0] == "o" and t[1] in ("add", "sub") and r and r[-1][1] >> (t[2] - 1) == 0:
                d = lin(e, st, t)
                l += [(d[0] - r[-1][1], d[1]), (r[0][0] - d[0], tuple((x, -k) for x, k in d[1]))]
            if t[0] != "o" or t[1] != "icmp" or len(r) != 1 or r[0][0] != r[0][1]:
                continue
            p, v = t[3], r[0][0]
            if p[0] == "s" and not signed:
                continue
            if not v:
                p = {"ult": "uge", "ule": "ugt", "ugt": "ule", "uge": "ult", "slt": "sge", "sle": "sgt", "sgt": "sle",
                     "sge": "slt", "eq": "ne", "ne": "eq"}[p]
            x, y = t[4], t[5]
            if x[0] == "p" or y[0] == "p":
                (ox, dx), (oy, dy) = ptr(e, st, x), ptr(e, st, y)
                if ox is None or ox != oy:
                    continue
                d = add(dx, dy, -1)
            else:
                d = add(lin(e, st, x), lin(e, st, y), -1)
            n = (-d[0], tuple((t, -k) for t, k in d[1]))
            k = p[-2:]
            if k == "eq":
                l += [d, n]
            elif k == "ne":
                self.unlike.append(d)
            elif k == "lt":
                l.append((d[0] + 1, d[1]))
            elif k == "le":
                l.append(d)
            elif k == "gt":
                l.append((n[0] + 1, n[1]))
            elif k == "ge":
                l.append(n)
        return l

    def atmost(self, e, st, L, c, fs):
        """L <= c"""
        b = bounds(e, st, L)
        if b and b[1] <= c:
            return True
        for f in fs:
            d = add(L, f, -1)
            if not d[1] and d[0] <= c:
                return True
        return False

    def differ(self, e, st, x, y):
        """difference of pointers, and whether joins have blurred just one of them; None for different objects"""
        (o, m), (q, n) = ptr(e, st, x), ptr(e, st, y)
        return None if o is None or o != q else (add(m, n, -1), self.merged(m) != self.merged(n))

    def merged(self, L):
        l = []
        for t, _ in L[1]:
            t_syms(t, l)
        for x in l:
            n = x[1]
            while n and n[0] == "old":
                n = n[1:]
            if n and n[0] == "m":
                return True
        return False

    def judge(self, e, st, I, text, L=None, least=None, ok=True, one=None):
        """L is zero (at least `least`); what joins of loop iterations have blurred is not judged, the first iterations are"""
        self.judged += 1
        if st.ghost.get("lost"):
            self.undecided += 1
            return False
        if ok and L is not None:
            fs = None
            if least is None:
                if zero(e, st, L):
                    return True
                fs = self.facts(e, st)
                N = (-L[0], tuple((t, -k) for t, k in L[1]))
                if self.atmost(e, st, L, 0, fs) and self.atmost(e, st, N, 0, fs):
                    return True
            else:
                fs = self.facts(e, st)
                N = (-L[0], tuple((t, -k) for t, k in L[1]))
                # these only go down in steps of one from at least one
                if self.atmost(e, st, N, -least, fs) or least and (L in self.unlike or N in self.unlike):
                    return True
            if (self.merged(L) or one is None and self.turns in st.ghost.get("turns", ())) and not one and not self.never(e, st, L, least):
                st.ghost["lost"] = 1
                self.undecided += 1
                return False
        elif ok:
            return True
        self.bad(I, text)
        return False

    def never(self, e, st, L, least):
        """it cannot hold, whatever the joins have blurred"""
        b = bounds(e, st, L)
        return b and (b[1] < least if least is not None else b[1] < 0 or b[0] > 0)

    def val(self, e, st, k):
        return lin(e, st, self.get(st, k))

    def against(self, e, st, I, text, v, k, c=0):
        """v is c less than what is expected; a join that blurs one of the two but not the other has joined a wrong one"""
        x, y = lin(e, st, v), self.val(e, st, k)
        d = add(x, y, -1)
        return self.judge(e, st, I, text, (d[0] + c, d[1]), one=self.merged(x) != self.merged(y))

    def new(self, e, st, I, tag, w, r=None):
        n = ("i", I.id, tag)
        ren = {}
        m = n
        while any(t[0] == "s" and t[1] == m for t in self.syms(st)):
            ren[m] = ("old",) + m
            m = ("old",) + m
            if len(ren) > 3:
                break
        if ren:
            e.rename(st, {}, ren)
        return e.fresh(st, n, w, r)

    def syms(self, st):
        l = []
        for v in st.env.values():
            t_syms(v, l)
        for o in st.mem.values():
            l.extend(o.refs())
        return [x for x in l if x[0] == "s"]
