"""Gated value-flow evaluation of MIR bodies (interprocedural, loops cut at their back edges)."""
import re
from .terms import *
from . import terms as TM

LOCAL = ("csvp", "csvpp")


class Ev:
    __slots__ = ("kind", "path", "raw", "args", "ret", "guard", "span", "loops", "stack", "ta", "seq", "fnkey", "x", "was", "rty")

    def __repr__(self):
        return f"<{self.seq} {self.kind} {self.path} {[show(a,3) for a in self.args]} if {show(self.guard,4)} @{self.span}>"


def strip_generics(p):
    """core::option::Option::<T>::map -> core::option::Option::map"""
    out, depth, i = [], 0, 0
    if p.startswith("<"):
        return p
    while i < len(p):
        if p.startswith("::<", i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = p[i + 3:j]
            if inner.startswith("impl "):
                out.append(p[i:j + 1])
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


WORLD = mk("sym", "world", "")


def empty_coll(x):
    """A collection which is known to be empty."""
    if x.op == "arr" and not x.a:
        return True
    return x.op == "call" and x.a[0] == "default" and x.a[1].op == "k" and str(x.a[1].a[1]).lstrip("&").startswith(
        ("alloc::vec::Vec<", "std::collections::", "[", "alloc::collections::"))


class Cfg:
    def __init__(self, blocks):
        n = len(blocks)
        self.succ = [[] for _ in range(n)]
        for i, (st, t, cl) in enumerate(blocks):
            k = t[0]
            if k == "goto":
                self.succ[i] = [t[1]]
            elif k == "switch":
                self.succ[i] = [b for _, b in t[2]] + [t[3]]
            elif k == "drop":
                self.succ[i] = [t[2]]
            elif k == "call":
                self.succ[i] = [t[4]] if t[4] is not None else []
            elif k == "assert":
                self.succ[i] = [t[4]]
        # prune: successors that are immediately unreachable
        self.dead = {i for i, (st, t, cl) in enumerate(blocks) if t[0] == "unreach" and not [s for s in st if s[0] == "="]}
        order, seen, onst = [], set(), set()
        self.back = set()
        stack = [(0, iter(dict.fromkeys(self.succ[0])))]
        seen.add(0); onst.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onst:
                    self.back.add((b, s))
                elif s not in seen:
                    seen.add(s); onst.add(s)
                    stack.append((s, iter(dict.fromkeys(self.succ[s]))))
                    break
            else:
                stack.pop(); onst.discard(b)
                order.append(b)
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        pred = {}
        for b in self.rpo:
            for s in set(self.succ[b]):
                pred.setdefault(s, set()).add(b)
        self.pred = pred
        self.loops = {}
        for (l, h) in self.back:
            body = self.loops.setdefault(h, {h})
            st = [l]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(pred.get(x, ()))


MASK = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


class Engine:
    def __init__(self, facts, opaque=None, max_depth=40, inline_filter=None, world=None):
        self.world = world
        self.F = facts
        TM.ADTS.clear()
        TM.ADTS.update(facts.adts)
        self.opaque = opaque or (lambda fn: False)
        self.max_depth = max_depth
        self.overflows = False
        self.reset()

    def reset(self):
        self.events = []
        self.rty = ""
        self.frame = 0
        self.leaves = {}     # loop -> when a turn of it ends with leaving it
        self.aggregates = []  # sums, counts.. as they were formed
        self.rec_info = {}   # rec id -> [init, latch, fnkey]
        self.stack = []
        self.loopstack = ()
        self.latch = {}
        self.entry = {}
        self.nfresh = 0
        self.seen_fns = set()
        self.seq = 0
        self._hasref = {}
        self.agg_events = True

    # ------------------------------------------------------------ refs & memory
    def has_ref(self, t):
        r = self._hasref.get(t.id)
        if r is not None:
            return r
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.id in self._hasref:
                continue
            if x.op in ("ref", "loc"):
                self._hasref[x.id] = True
                continue
            ch = []
            for y in x.a:
                if isinstance(y, T):
                    ch.append(y)
                elif isinstance(y, tuple):
                    ch.extend(z for z in y if isinstance(z, T))
            if done:
                self._hasref[x.id] = any(self._hasref.get(c.id, False) for c in ch)
            else:
                st.append((x, True))
                st.extend((c, False) for c in ch if c.id not in self._hasref)
        return self._hasref[t.id]

    def resolve(self, t, st, depth=0):
        """Replace references inside t by the values they point to."""
        if not self.has_ref(t) or depth > 30:
            return t
        if t.op == "ref":
            v = self.load(st, t.a[0], t.a[1])
            return self.resolve(v, st, depth + 1)
        if t.op == "gate":
            return ordered_gate(t.a[0], {l: self.resolve(k, st, depth + 1) for l, k in zip(t.a[1], t.a[2])},
                                self.resolve(t.a[3], st, depth + 1) if t.a[3] is not None else None)
        na = []
        for y in t.a:
            if isinstance(y, T):
                na.append(self.resolve(y, st, depth + 1))
            elif isinstance(y, tuple) and any(isinstance(z, T) for z in y):
                na.append(tuple(self.resolve(z, st, depth + 1) if isinstance(z, T) else z for z in y))
            else:
                na.append(y)
        return mk(t.op, *na)

    def val(self, t, st):
        """Value behind top-level references."""
        n = 0
        while n < 20:
            if t.op == "ref":
                t = self.load(st, t.a[0], t.a[1])
            elif t.op == "gate" and any(x.op == "ref" for x in leaves(t)):
                t = lift(None, lambda x: self.load(st, x.a[0], x.a[1]) if x.op == "ref" else x, t)
            else:
                return t
            n += 1
        return t

    def behind(self, t, st):
        """The value a pointer leads to now, also for pointers the analysed function was given."""
        v = self.val(t, st)
        return lift(None, lambda x: self.latest(st[x], st) if x.op in ("sym", "fld", "dfld") and x in st else x, v)

    def load(self, st, root, proj):
        v = st.get(root)
        if v is None:
            v = UNDEF if root.op == "loc" else root
        for e in proj:
            v = self.project(v, e, st)
        return self.latest(v, st)

    def latest(self, v, st, seen=()):
        """A pointer field that was written through holds the state after the write; later writes are recorded on that state."""
        if v.op == "upd":
            if v in seen or v not in st:
                return v
            return self.latest(st[v], st, seen + (v,))
        if v.op == "with":
            b = v
            while b.op == "with":
                b = b.a[0]
            if b.op == "upd" and b in st and b not in seen:
                return self.rebase(v, b, self.latest(b, st, seen))
        if v.op == "gate" and any(x.op in ("upd", "with") for x in leaves(v)):
            return lift(None, lambda x: self.latest(x, st, seen) if x.op in ("upd", "with") else x, v)
        return v

    def rebase(self, v, b, n):
        if v is b:
            return n
        return lift(None, lambda x: self.mk_with(x, v.a[1], v.a[2]), self.rebase(v.a[0], b, n))

    def project(self, v, e, st):
        k = e[0]
        if v.op == "gate":
            return lift(None, lambda x: self.project(x, e, st), v)
        if v.op in ("dead", "cont"):
            return v
        if v.op == "ref":
            if k == "*":
                return self.load(st, v.a[0], v.a[1])
            inner = self.load(st, v.a[0], v.a[1])
            if inner.op == "ref":
                return self.project(inner, e, st)
            return mk("ref", v.a[0], v.a[1] + (e,))
        if k == "*":
            if v.op == "adt" or v.op == "c":
                return v
            if v.op == "elem" and v.a[0].op == "ref" and v not in st:
                src = self.resolve(v.a[0], st)
                if src.op == "arr":
                    return self.elem(src)
            return st.get(v, v)
        if k == "bx" or k == "cast":
            return v
        if k == "v":
            if v.op == "adt":
                return v if v.a[1] == e[1] else DEAD
            if v.op == "dc":
                return v
            return mk("dc", v, e[1])
        if k == "f":
            return self.field(v, e[1])
        if k == "ix":
            return self.index(v, e[1])
        if k == "sub":
            if v.op == "arr":
                el = list(v.a)
                return mk("arr", *(el[e[1]:len(el) - e[2]] if e[3] else el[e[1]:e[2]]))
            return mk("sub", v, e[1], e[2], e[3])
        raise RuntimeError("proj " + str(e))

    def field(self, v, name):
        if v.op == "gate":
            return lift(None, lambda x: self.field(x, name), v)
        if v.op in ("dead", "cont"):
            return v
        if v.op == "adt":
            fs = fields_of(v.a[0], v.a[1])
            if fs and name in fs:
                i = fs.index(name)
                if i + 2 < len(v.a):
                    return v.a[i + 2]
            if name.isdigit() and int(name) + 2 < len(v.a):
                return v.a[int(name) + 2]
            return mk("fld", v, name)
        if v.op == "tup":
            i = int(name)
            return v.a[i] if i < len(v.a) else mk("fld", v, name)
        if v.op == "clo":
            return v.a[1 + int(name[2:])]
        if v.op == "with":
            return v.a[2] if v.a[1] == name else self.field(v.a[0], name)
        if v.op == "dc":
            b, var = v.a
            if b.op == "with" and b.a[1] == var + "!" + name:
                return b.a[2]
            if b.op == "next" and var == "Some":
                return self.elem(b.a[0])
            if b.op == "findr" and var == "Some":
                return b.a[1]
            if b.op == "ok_of" and var in ("Ok", "Some"):
                return b.a[0]
            return mk("dfld", b, var, name)
        return mk("fld", v, name)

    def index(self, v, i):
        if v.op == "gate":
            return lift(None, lambda x: self.index(x, i), v)
        if v.op in ("dead", "cont"):
            return v
        if i.op in ("adt", "ctor") and i.a[0].endswith("RangeFull") or i.op == "c" and str(i.a[0]).endswith("RangeFull"):
            return v
        if v.op == "arr" and i.op == "c":
            n = i.a[1]
            if -len(v.a) <= n < len(v.a):
                return v.a[n]
        if v.op == "arr" and 0 < len(v.a) <= 40 and i.op not in ("gate", "pos") and all(x.op in ("c", "adt", "tup") for x in v.a):
            return mk_gate(atom_val(i), {k: x for k, x in enumerate(v.a)}, DEAD)
        return mk("idx", v, i)

    def heap_path(self, t):
        path = []
        while t.op in ("fld", "dfld"):
            if t.op == "fld":
                path.append(("f", t.a[1]))
            else:
                path.append(("f", t.a[2])); path.append(("v", t.a[1]))
            t = t.a[0]
        return t, tuple(reversed(path))

    def store(self, st, root, proj, val):
        if not proj:
            st[root] = val
            return
        old = st.get(root)
        if old is None:
            old = UNDEF if root.op == "loc" else root
        st[root] = self.update(st, old, proj, val)

    def update(self, st, old, proj, val):
        if not proj:
            return val
        e = proj[0]
        k = e[0]
        if old.op == "gate":
            if any(x.op == "ref" for x in leaves(old)):
                for leaf in list(dict.fromkeys(leaves(old))):
                    if leaf.op in ("dead", "cont"):
                        continue
                    cond = lift(None, lambda x: TRUE if x is leaf else FALSE, old)
                    rest = proj[1:] if k == "*" else proj
                    if leaf.op == "ref":
                        cur = self.load(st, leaf.a[0], leaf.a[1] + rest)
                        self.store(st, leaf.a[0], leaf.a[1] + rest, ite(cond, val, cur))
                return old
            return lift(None, lambda x: self.update(st, x, proj, val), old)
        if old.op in ("dead", "cont"):
            return old
        if old.op == "ref":
            rest = proj[1:] if k == "*" else proj
            inner = self.load(st, old.a[0], old.a[1])
            if inner.op == "ref" and k != "*":
                self.update(st, inner, proj, val)
            else:
                self.store(st, old.a[0], old.a[1] + rest, val)
            return old
        if k == "*":
            r, p = self.heap_path(old)
            if p or r is not old:
                self.store(st, r, p + proj[1:], val)
            else:
                self.store(st, old, proj[1:], val)
            return old
        if k in ("bx", "cast"):
            return self.update(st, old, proj[1:], val)
        if k == "v":
            if old.op in ("adt",):
                return self.update(st, old, proj[1:], val)
            if len(proj) > 1 and proj[1][0] == "f":
                name = e[1] + "!" + proj[1][1]
                cur = self.field(mk("dc", old, e[1]), proj[1][1])
                return self.mk_with(old, name, self.update(st, cur, proj[2:], val))
            return val
        if k == "f":
            name = e[1]
            if old.op == "adt":
                fs = fields_of(old.a[0], old.a[1])
                i = fs.index(name) if fs and name in fs else None
                if i is not None and i + 2 < len(old.a):
                    a = list(old.a)
                    a[i + 2] = self.update(st, a[i + 2], proj[1:], val)
                    return mk("adt", *a)
            if old.op == "tup":
                a = list(old.a)
                if int(name) < len(a):
                    a[int(name)] = self.update(st, a[int(name)], proj[1:], val)
                    return mk("tup", *a)
            if old.op == "clo":
                a = list(old.a)
                i = 1 + int(name[2:])
                a[i] = self.update(st, a[i], proj[1:], val)
                return mk("clo", *a)
            cur = self.field(old, name)
            return self.mk_with(old, name, self.update(st, cur, proj[1:], val))
        if k == "ix":
            if old.op == "arr" and e[1].op == "c" and 0 <= e[1].a[1] < len(old.a):
                a = list(old.a)
                a[e[1].a[1]] = self.update(st, a[e[1].a[1]], proj[1:], val)
                return mk("arr", *a)
            cur = self.index(old, e[1])
            return mk("upd", "index_set", old, e[1], self.update(st, cur, proj[1:], val))
        if k == "sub":
            return mk("upd", "sub_set", old, val)
        raise RuntimeError("upd " + str(e))

    def mk_with(self, old, name, val):
        if old.op == "with":
            if old.a[1] == name:
                return self.mk_with(old.a[0], name, val)
            if old.a[1] > name:
                return mk("with", self.mk_with(old.a[0], name, val), old.a[1], old.a[2])
        if val.op == "fld" and val.a[0] is old and val.a[1] == name:
            return old
        if old.op == "call" and old.a[0] == "default" and len(old.a) == 2 and old.a[1].op == "k":
            ad = str(old.a[1].a[1])                       # (all fields but one of a struct's default)
            fs = fields_of(ad, ad.split("::")[-1]) if "<" not in ad else None
            if fs and name in fs:
                return mk("adt", ad, ad.split("::")[-1], *[val if f == name else self.field(old, f) for f in fs])
        return mk("with", old, name, val)

    # ------------------------------------------------------------ values
    def discr(self, v, adt, st):
        v = self.val(v, st)
        return mk("discr", v, adt)

    def const(self, j, fr):
        if "named" in j and j["named"] and ("k" in j) and False:
            pass
        if "s" in j:
            return c_str(j["s"])
        if "i" in j:
            return c_int(j["i"])
        if "b" in j:
            return c_bool(j["b"])
        if "ch" in j:
            return c_char(j["ch"])
        if "fl" in j:
            return mk("c", "f", j["fl"])
        if "bytes" in j:
            return mk("c", "by", bytes(j["bytes"]))
        if "adt" in j:
            v = j["v"]
            return mk("adt", j["adt"], v, *[self.const(x, fr) for x in j["f"]])
        if "tup" in j:
            return mk("tup", *[self.const(x, fr) for x in j["tup"]])
        if "arr" in j:
            return mk("arr", *[self.const(x, fr) for x in j["arr"]])
        if "clo" in j:
            return mk("clo", j["clo"])
        if "ctor" in j:
            return mk("ctor", j["ctor"], j["v"])
        if "fn" in j:
            return mk("fn", j["fn"], j.get("p", j["fn"]), j.get("raw", j["fn"]), tuple(j.get("ta", ())), j.get("kr", ""), bool(j.get("virt") or j.get("unres")))
        if "prom" in j:
            return self.promoted(j["prom"], j["n"])
        if "static" in j:
            return mk("static", j["static"])
        return mk("k", j.get("named") or j.get("k", "?"), j.get("t", ""))

    def promoted(self, key, n):
        fn = self.F.fns.get(key) or self.F.polys.get(key)
        if fn is None or n >= len(fn.proms):
            return mk("k", "prom:" + key, str(n))
        p = fn.proms[n]
        cache = self.__dict__.setdefault("_prom", {})
        if (key, n) in cache:
            return cache[(key, n)]
        class P:
            pass
        q = P()
        q.blocks = p["b"]; q.locals = p["l"]; q.nargs = 0; q.key = key + f"#p{n}"; q._cfg = None; q.kr = fn.kr; q.span = fn.span
        sv = (self.events, self.loopstack)
        self.events = []
        st = {}
        r, rc = self.eval_body(q, [], st, TRUE, raw_state=True)
        self.events, self.loopstack = sv
        r = self.resolve(r, self._last_state)
        cache[(key, n)] = r
        return r

    def cast(self, kind, v, ty, frm):
        if v.op == "gate":
            return lift(None, lambda x: self.cast(kind, x, ty, frm), v)
        if kind.startswith("IntToInt"):
            if v.op == "c" and v.a[0] in ("i", "ch", "b"):
                x = int(v.a[1])
                if ty in MASK:
                    return c_int(x & ((1 << MASK[ty]) - 1))
                if ty == "char":
                    return c_char(x)
                return c_int(x)
            if v.op == "discr":
                return v
            return mk("cast", ty, v)
        if kind.startswith(("FloatToInt", "IntToFloat", "FloatToFloat")):
            return mk("cast", ty, v)
        return v

    def eq(self, a, b, st):
        a, b = self.val(a, st), self.val(b, st)
        if self.has_ref(a):
            a = self.resolve(a, st)
        if self.has_ref(b):
            b = self.resolve(b, st)
        return self.eqt(a, b)

    def eqt(self, a, b):
        if a is b:
            return TRUE
        if a.id > b.id:
            a, b = b, a
        def f(x, y):
            if x in (DEAD, CONT):
                return x
            if y in (DEAD, CONT):
                return y
            if x is y:
                return TRUE
            if x.op == "c" and y.op == "c":
                return c_bool(x.a[1] == y.a[1])
            for p, q in ((x, y), (y, x)):
                if q.op == "c" and q.a[0] in ("i", "ch", "s", "b"):
                    if p.op == "discr":
                        vs = variants_of(p.a[1])
                        if vs is not None:
                            for n, d, _ in ADTS[p.a[1]]["variants"]:
                                if d == q.a[1]:
                                    return self.disc_is(p.a[0], p.a[1], n)
                            return FALSE
                    return mk_gate(atom_val(p), {q.a[1]: TRUE}, FALSE)
            if x.op == "discr" and y.op == "discr":
                adt = x.a[1] or y.a[1]
                for p, q in ((x, y), (y, x)):
                    if q.a[0].op == "adt":
                        return self.disc_is(p.a[0], q.a[0].a[0], q.a[0].a[1])
                return boolify(mk("bin", "Eq", *sorted((x, y), key=lambda t: t.id)))
            if x.op == "adt" and y.op == "adt" and x.a[0] == y.a[0]:
                if x.a[1] != y.a[1]:
                    return FALSE
                r = TRUE
                for p, q in zip(x.a[2:], y.a[2:]):
                    r = b_and(r, self.eqt(p, q))
                return r
            for p, q in ((x, y), (y, x)):
                if q.op == "adt" and variants_of(q.a[0]) and ADTS[q.a[0]]["kind"] == "enum" and p.op not in ("adt",):
                    r = self.disc_is(p, q.a[0], q.a[1])
                    fs = fields_of(q.a[0], q.a[1]) or []
                    for n, z in zip(fs, q.a[2:]):
                        r = b_and(r, self.eqt(self.field(mk("dc", p, q.a[1]), n), z))
                    return r
            if x.op == "tup" and y.op == "tup" and len(x.a) == len(y.a):
                r = TRUE
                for p, q in zip(x.a, y.a):
                    r = b_and(r, self.eqt(p, q))
                return r
            for p, q in ((x, y), (y, x)):
                if q.op == "c" and q.a[1] == "" and p.op != "c":
                    return mk_gate(atom_val(mk("call", "len", p)), {0: TRUE}, FALSE)
            return boolify(mk("bin", "Eq", *sorted((x, y), key=lambda t: t.id)))
        return lift("eq", f, a, b)

    def disc_is(self, v, adt, variant):
        def f(x):
            if x.op in ("dead", "cont"):
                return x
            if x.op == "adt":
                return c_bool(x.a[1] == variant)
            return mk_gate(atom_disc(x, adt), {variant: TRUE}, FALSE)
        return lift(("disc_is", adt, variant), f, v)

    def lt(self, a, b):
        def f(x, y):
            if x in (DEAD, CONT):
                return x
            if y in (DEAD, CONT):
                return y
            if x is y:
                return FALSE
            if x.op == "c" and y.op == "c" and type(x.a[1]) is type(y.a[1]) and x.a[0] in ("i", "ch"):
                return c_bool(x.a[1] < y.a[1])
            # x < 1  ==  x == 0 for lengths
            if y.op == "c" and y.a[0] == "i" and y.a[1] == 1 and x.op == "call" and x.a[0] == "len":
                return self.eqt(x, c_int(0))
            if x.op == "c" and x.a[0] == "i" and x.a[1] == 0 and y.op == "call" and y.a[0] == "len":
                return b_not(self.eqt(y, c_int(0)))
            return boolify(mk("bin", "Lt", x, y))
        return lift("lt", f, a, b)

    def binop(self, op, a, b, ty, st):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.val(a, st), self.val(b, st)
            if op == "Eq":
                return self.eqt(a, b)
            if op == "Ne":
                return b_not(self.eqt(a, b))
            if op == "Lt":
                return self.lt(a, b)
            if op == "Gt":
                return self.lt(b, a)
            if op == "Le":
                return b_not(self.lt(b, a))
            return b_not(self.lt(a, b))
        if op.endswith("WithOverflow"):
            v = self.arith(op[:-12], a, b)
            ovf = FALSE if not self.overflows or v.op == "c" else mk("ovf", op[:-12], a, b, ty)
            return mk("tup", v, ovf)
        if op.endswith("Unchecked"):
            op = op[:-9]
        if ty == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
            a, b = boolify(a), boolify(b)
            if op == "BitAnd":
                return b_and(a, b)
            if op == "BitOr":
                return b_or(a, b)
            return ite(a, b_not(b), b)
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        def f(x, y):
            if x.op in ("dead", "cont"):
                return x
            if y.op in ("dead", "cont"):
                return y
            if x.op == "c" and y.op == "c" and x.a[0] == "i" and y.a[0] == "i":
                p, q = x.a[1], y.a[1]
                if op == "Add":
                    return c_int(p + q)
                if op == "Sub":
                    return c_int(p - q)
                if op == "Mul":
                    return c_int(p * q)
                if op == "BitOr":
                    return c_int(p | q)
                if op == "BitAnd":
                    return c_int(p & q)
            if op == "Sub" and y.op == "c" and y.a[0] == "i":
                return self.arith("Add", x, c_int(-y.a[1]))
            if op == "Add":
                if x.op == "c":
                    x, y = y, x
                if y.op == "c" and y.a[0] == "i":
                    if y.a[1] == 0:
                        return x
                    if x.op == "bin" and x.a[0] == "Add" and x.a[2].op == "c" and x.a[2].a[0] == "i":
                        return self.arith("Add", x.a[1], c_int(x.a[2].a[1] + y.a[1]))
                    return mk("bin", "Add", x, y)
            if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and x.id > y.id:
                x, y = y, x
            return mk("bin", op, x, y)
        return lift(("arith", op), f, a, b)

    def unop(self, op, a):
        if op == "Not":
            if a.op == "c" and a.a[0] == "i":
                return mk("un", "Not", a)
            return b_not(boolify(a)) if not (a.op == "c" and a.a[0] != "b") else a
        if op == "PtrMetadata":
            return self.length(a)
        def f(x):
            if op == "Neg" and x.op == "c" and x.a[0] == "i":
                return c_int(-x.a[1])
            return mk("un", op, x)
        return lift(("un", op), f, a)

    def length(self, v):
        def f(x):
            if x.op == "arr":
                return c_int(len(x.a))
            if x.op == "c" and x.a[0] == "s":
                return c_int(len(x.a[1].encode()))
            if empty_coll(x):
                return c_int(0)
            return mk("call", "len", x)
        return lift("len", f, v)

    def fresh(self, what):
        self.nfresh += 1
        return mk("fresh", what, self.nfresh)

    # ------------------------------------------------------------ bodies
    def cfg(self, fn):
        if fn._cfg is None:
            fn._cfg = Cfg(fn.blocks)
        return fn._cfg

    def run(self, fn, args=None):
        """Evaluate fn as a root with symbolic arguments. Returns (ret, state, args)."""
        if isinstance(fn, str):
            fn = self.F.fns.get(fn) or self.F.polys[fn]
        self.reset()
        names = {}
        for n, p in fn.vars:
            if isinstance(p, int) and 1 <= p <= fn.nargs:
                names.setdefault(p, n)
        if args is None:
            args = [mk("sym", names.get(i, f"arg{i}"), fn.locals[i]) for i in range(1, fn.nargs + 1)]
        st = {}
        self.root_args = args
        r, rc = self.eval_body(fn, args, st, TRUE, raw_state=True)
        self.ret, self.retc, self.state = r, rc, self._last_state
        return self.resolve(r, self._last_state)

    def eval_body(self, fn, args, st, G, raw_state=False):
        """Returns (ret value, condition of returning). st is updated in place."""
        self.frame += 1
        fr = self.frame
        self.stack.append(fn.key)
        self.seen_fns.add(fn.key)
        locs = [mk("loc", fr, i) for i in range(len(fn.locals))]
        st = dict(st) if raw_state else st
        for i, a in enumerate(args):
            if i + 1 < len(locs):
                st[locs[i + 1]] = a
        ctx = (fn, fr, locs, G)
        blocks = set(self.cfg(fn).rpo)
        rets, _, _, cont = self.region(ctx, 0, blocks, st, TRUE, None)
        self.stack.pop()
        if not rets:
            self._last_state = st
            return DEAD, FALSE
        c, s2 = self.merge([(c, s) for c, s in rets], cont)
        rv = s2.get(locs[0], UNIT)
        if fn.locals[0] == "()":
            rv = UNIT
        # values escaping by reference to callee locals are read now
        rv = self.detach(rv, fr, s2)
        for k in list(s2):
            if k.op == "loc" and k.a[0] == fr:
                del s2[k]
        self._last_state = s2
        if not raw_state:
            st.clear()
            st.update(s2)
        return rv, c

    def detach(self, t, fr, st, depth=0):
        if depth > 20 or not self.has_ref(t):
            return t
        if t.op == "ref":
            if t.a[0].op == "loc" and t.a[0].a[0] == fr:
                return self.detach(self.load(st, t.a[0], t.a[1]), fr, st, depth + 1)
            return t
        if t.op == "gate":
            return ordered_gate(t.a[0], {l: self.detach(k, fr, st, depth + 1) for l, k in zip(t.a[1], t.a[2])},
                                self.detach(t.a[3], fr, st, depth + 1) if t.a[3] is not None else None)
        na = []
        for y in t.a:
            if isinstance(y, T):
                na.append(self.detach(y, fr, st, depth + 1))
            elif isinstance(y, tuple) and any(isinstance(z, T) for z in y):
                na.append(tuple(self.detach(z, fr, st, depth + 1) if isinstance(z, T) else z for z in y))
            else:
                na.append(y)
        return mk(t.op, *na)

    def merge(self, ins, cont):
        """ins: [(cond, state)] -> (cond, state)"""
        if len(ins) == 1:
            return ins[0][0], dict(ins[0][1])
        c = FALSE
        for ci, _ in ins:
            c = b_or(c, ci)
        roots = set()
        for _, s in ins:
            roots |= s.keys()
        out = {}
        els = DEAD if cont is FALSE else ite(cont, CONT, DEAD)
        for r in roots:
            vs = []
            for ci, s in ins:
                v = s.get(r)
                if v is None:
                    v = UNDEF if r.op == "loc" else r
                vs.append(v)
            f = vs[0]
            if all(v is f for v in vs):
                out[r] = f
                continue
            if r.op == "loc" and any(v is UNDEF for v in vs):
                # uninitialised on some path: don't care there
                vs2 = [v for v in vs if v is not UNDEF]
                if all(v is vs2[0] for v in vs2):
                    out[r] = vs2[0]
                    continue
            v = els
            for (ci, _), x in reversed(list(zip(ins, vs))):
                v = ite(ci, DEAD if x is UNDEF else x, v)
            out[r] = v
        return c, out

    def region(self, ctx, entry, blocks, st, cond, header):
        """Evaluate the acyclic region `blocks` from entry. Returns (rets, latches, exits, cont)."""
        fn, fr, locs, G = ctx
        cfg = self.cfg(fn)
        inner = {h: b for h, b in cfg.loops.items() if h in blocks and h != header}
        # outermost inner loops only
        outer = {}
        for h, b in inner.items():
            if not any(h in b2 and h2 != h and len(b2) > len(b) for h2, b2 in inner.items()):
                outer[h] = b
        owner = {}
        for h, b in outer.items():
            for x in b:
                owner[x] = h
        pending = {entry: [(cond, st)]}
        rets, latches, exits = [], [], []
        cont = FALSE
        for b in cfg.rpo:
            if b not in blocks or b not in pending:
                continue
            if owner.get(b, b) != b:
                continue
            ins = [(c, s) for c, s in pending.pop(b) if c is not FALSE]
            if not ins:
                continue
            c, s = self.merge(ins, cont)
            if c is FALSE or c is DEAD:
                continue
            if b in outer:
                outs, lrets, lc = self.loop(ctx, b, outer[b], s, c)
                rets += lrets
                cont = b_or(cont, lc)
            else:
                outs, r = self.block(ctx, b, s, c)
                if r is not None:
                    rets.append(r)
            for tgt, ec, es in outs:
                if ec is FALSE or ec is DEAD:
                    continue
                if header is not None and tgt == header:
                    latches.append((ec, es))
                elif tgt in blocks:
                    pending.setdefault(tgt, []).append((ec, es))
                else:
                    exits.append((tgt, ec, es))
        return rets, latches, exits, cont

    def loop(self, ctx, h, body, st, cond):
        fn, fr, locs, G = ctx
        changed = {}
        ctx = (fn, fr, locs, b_and(G, cond))
        nev = len(self.events)
        lid = (fn.key, h, fr)
        save_loop = self.loopstack
        self.loopstack = save_loop + (lid,)
        made = self.nfresh
        known = set(self.latch)
        for it in range(8):
            del self.events[nev:]
            for k in set(self.latch) - known:      # loops of the turn that is evaluated again
                del self.latch[k], self.leaves[k], self.entry[k]
            s = dict(st)
            for r, rc in changed.items():
                s[r] = rc
            rets, latches, exits, cont = self.region(ctx, h, body, s, TRUE, h)
            if not latches:
                break
            lc, ls = self.merge(latches, cont)
            new = False
            for r in set(ls) | set(s):
                a = s.get(r)
                if a is None:
                    a = UNDEF if r.op == "loc" else r
                b = ls.get(r, a)
                if a is not b and r not in changed:
                    init = st.get(r)
                    if init is None:
                        if r.op == "loc":
                            continue  # defined inside the loop body only
                        if r.op == "fresh" and r.a[1] > made:
                            continue  # (allocated there)
                        init = r
                    rec = mk("rec", fn.key, h, fr, r.id if r.op != "loc" else r.a[1], r.op)
                    self.rec_info[rec.id] = [init, None, fn.key, rec]
                    changed[r] = rec
                    new = True
            if not new:
                for r, rc in changed.items():
                    if rc.op == "rec":
                        self.rec_info[rc.id][1] = ls.get(r, s.get(r))
                more = self.induced({r: rc for r, rc in changed.items() if rc.op == "rec"}) if all(c.op == "rec" for c in changed.values()) else {}
                if not more or it >= 7:
                    break
                changed.update(more)
        self.loopstack = save_loop
        # conditions inside are relative to the header: conjoin with the entry condition
        outs = [(t, b_and(cond, ec), es) for t, ec, es in exits]
        rr = [(b_and(cond, rc), rs) for rc, rs in rets]
        lc = FALSE
        for ec, _ in latches:
            lc = b_or(lc, ec)
        self.latch[lid] = lc
        x = FALSE
        for ec in [c for _, c, _ in exits] + [c for c, _ in rets]:
            x = b_or(x, ec)
        self.leaves[lid] = x
        self.entry[lid] = ctx[3]
        return outs, rr, b_and(cond, lc)

    def induced(self, changed):
        """Loop variables which at the start of every iteration are the same function of the others: {location: that}
        (`x = f(y)` before the loop and again after every change of y)."""
        from sa.q import subst
        out = {}
        for r, rc in changed.items():
            init, step = self.rec_info[rc.id][:2]
            if not isinstance(step, T) or step.op not in ("upd", "call", "adt") or not isinstance(init, T) or init.op != step.op:
                continue
            sub = {x.id for x in subterms(step)}
            if rc.id in sub:
                continue
            for q, qc in changed.items():
                if q is r or q in out:
                    continue
                qi, qs = self.rec_info[qc.id][:2]
                if not isinstance(qs, T) or qs.id not in sub or qs.op in ("c", "sym"):
                    continue
                f = subst(step, {qs: qc})
                if subst(f, {qc: qi}) is init and subst(f, {qc: qs}) is step:
                    out[r] = f
                    break
        return out

    def block(self, ctx, b, st, cond):
        fn, fr, locs, G = ctx
        stmts, term, _ = fn.blocks[b]
        st = dict(st)
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(ctx, s[2], st, cond, s[3])
                self.assign(ctx, s[1], v, st)
            elif k == "setd":
                root, proj = self.place(ctx, s[1], st)
                self.store(st, root, proj + (("v", s[2]),), mk("k", "setdiscr", s[2]))
        k = term[0]
        if k == "goto":
            return [(term[1], cond, st)], None
        if k == "ret":
            return [], (cond, st)
        if k in ("unreach", "resume", "other"):
            return [], None
        if k == "drop":
            return [(term[2], cond, st)], None
        if k == "assert":
            v = self.operand(ctx, term[1], st)
            if not (v.op == "c" and v.a[1] == term[2]):
                self.event("assert", term[3], term[3], [v], UNIT, b_and(G, cond), term[5], ())
            return [(term[4], cond, st)], None
        if k == "switch":
            v = self.operand(ctx, term[1], st)
            outs = []
            rest = TRUE
            ty = term[4]
            for val, tgt in term[2]:
                if ty == "bool":
                    c = b_not(boolify(v)) if val == 0 else boolify(v)
                elif ty == "char":
                    c = self.eqt(v, c_char(val))
                else:
                    c = self.eqt(v, c_int(val))
                if tgt not in self.cfg(fn).dead:
                    outs.append((tgt, b_and(cond, c), st))
                rest = b_and(rest, b_not(c))
            if term[3] not in self.cfg(fn).dead:
                outs.append((term[3], b_and(cond, rest), st))
            # join edges to the same target
            by = {}
            for t, c, s in outs:
                by[t] = b_or(by[t], c) if t in by else c
            return [(t, c, dict(st)) for t, c in by.items()], None
        if k == "call":
            return self.call_term(ctx, term, st, cond)
        raise RuntimeError(k)

    def call_term(self, ctx, term, st, cond):
        fn, fr, locs, G = ctx
        _, fop, ar, dest, tgt, dty, unw, span = term
        f = self.operand(ctx, fop, st)
        args = [self.operand(ctx, a[0], st) for a in ar]
        tys = [a[1] for a in ar]
        r, rc = self.call(f, args, tys, dty, st, b_and(G, cond), span)
        if tgt is None:
            return [], None
        if r is None:
            r = UNIT
        self.assign(ctx, dest, r, st)
        c = b_and(cond, rc) if rc is not TRUE else cond
        if r.op == "next" and self.loopstack and self.loopstack[-1][0] == fn.key and self.loopstack[-1][2:] == (fr,):
            # an element which a filter leaves out: on to the next one
            fc = self.icond(r.a[0])
            if fc is not TRUE:
                more = self.disc_is(r, "core::option::Option", "Some")
                skip = b_and(c, b_and(more, b_not(fc)))
                return [(tgt, b_and(c, b_not(b_and(more, b_not(fc)))), dict(st)), (self.loopstack[-1][1], skip, st)], None
        return [(tgt, c, st)], None

    def place(self, ctx, p, st):
        """-> (root, proj)"""
        fn, fr, locs, G = ctx
        if isinstance(p, int):
            return locs[p], ()
        l, pj = p
        proj = []
        for e in pj:
            if e[0] == "i":
                proj.append(("ix", self.val(st.get(locs[e[1]], UNDEF), st)))
            elif e[0] == "ci":
                proj.append(("ix", c_int(-e[1] if e[2] else e[1])))
            elif e[0] == "sub":
                proj.append(("sub", e[1], e[2], e[3]))
            else:
                proj.append(tuple(e))
        return locs[l], tuple(proj)

    def assign(self, ctx, p, v, st):
        root, proj = self.place(ctx, p, st)
        self.store(st, root, proj, v)

    def operand(self, ctx, op, st):
        if op[0] == "k":
            return self.const(op[1], ctx)
        root, proj = self.place(ctx, op[1], st)
        return self.load(st, root, proj)

    def mkref(self, ctx, p, st):
        """Reference to a place: dereferences inside the path are followed so that the reference
        names the final object."""
        root, proj = self.place(ctx, p, st)
        # split at the last deref
        last = -1
        for i, e in enumerate(proj):
            if e[0] == "*":
                last = i
        if last < 0:
            return mk("ref", root, proj)
        base = self.load(st, root, proj[:last])
        rest = proj[last + 1:]
        return self.reref(base, rest, st)

    def reref(self, base, rest, st):
        def f(x):
            if x.op in ("dead", "cont"):
                return x
            if x.op == "ref":
                return mk("ref", x.a[0], x.a[1] + rest)
            if not rest:
                return x  # reborrow of an opaque reference
            r, p = self.heap_path(x)
            if r.op in ("c", "adt", "tup", "arr"):
                v = x
                for e in rest:
                    v = self.project(v, e, st)
                return v
            return mk("ref", r, p + rest)
        return lift(None, f, base)

    def rvalue(self, ctx, r, st, cond, span):
        k = r[0]
        fn, fr, locs, G = ctx
        if k == "use":
            return self.operand(ctx, r[1], st)
        if k == "ref":
            return self.mkref(ctx, r[2], st)
        if k == "rep":
            return mk("rep", self.operand(ctx, r[1], st), r[2])
        if k == "cast":
            v = self.operand(ctx, r[2], st)
            return self.cast(r[1], v, r[3], r[4])
        if k == "bin":
            return self.binop(r[1], self.operand(ctx, r[2], st), self.operand(ctx, r[3], st), r[4], st)
        if k == "un":
            return self.unop(r[1], self.val(self.operand(ctx, r[2], st), st))
        if k == "disc":
            root, proj = self.place(ctx, r[1], st)
            return lift(None, lambda x: x if x.op in ("dead", "cont") else mk("discr", x, r[2]), self.val(self.load(st, root, proj), st))
        if k == "agg":
            fs = [self.operand(ctx, x, st) for x in r[2]]
            kd = r[1]
            if kd["k"] == "arr":
                return mk("arr", *fs)
            if kd["k"] == "tup":
                return mk("tup", *fs)
            if kd["k"] == "adt":
                t = mk("adt", kd["adt"], kd["v"], *fs)
                if self.agg_events and not kd["adt"].startswith(("core::", "alloc::", "std::")):
                    self.event("agg", kd["adt"] + "::" + kd["v"], kd["adt"], [self.resolve(x, st) for x in fs], t, b_and(G, cond), span, ())
                return t
            if kd["k"] == "clo":
                return mk("clo", kd["key"], *fs)
            if kd["k"] == "rawptr":
                return fs[0]
            return mk("k", "agg", str(kd))
        if k == "tls":
            return mk("static", r[1])
        return mk("k", "rv", str(r[1:])[:80])

    def event(self, kind, path, raw, args, ret, guard, span, ta):
        e = Ev()
        e.kind, e.path, e.raw, e.args, e.ret, e.guard, e.span, e.ta = kind, path, raw, args, ret, guard, span, ta
        e.loops = self.loopstack
        e.stack = tuple(self.stack)
        e.fnkey = self.stack[-1] if self.stack else ""
        self.seq += 1
        e.seq = self.seq
        e.x = e.was = None
        e.rty = self.rty
        self.events.append(e)
        return e

    # ------------------------------------------------------------ calls
    def call(self, f, args, tys, dty, st, G, span):
        """-> (value, return condition)"""
        self.rty = dty
        if f.op == "gate":
            fv = leaves(f)
            if len(fv) == 1:
                f = fv[0]
        if f.op == "ref":
            f = self.val(f, st)
        if f.op == "ctor":
            t = mk("adt", f.a[0], f.a[1], *args)
            if not f.a[0].startswith(("core::", "alloc::", "std::")):
                self.event("agg", f.a[0] + "::" + f.a[1], f.a[0], [self.resolve(x, st) for x in args], t, G, span, ())
            return t, TRUE
        if f.op == "clo":
            fn = self.F.fns.get(f.a[0]) or self.F.polys.get(f.a[0])
            return self.inline(fn, [f] + args, tys, dty, st, G, span, f.a[0])
        if f.op != "fn":
            ra = [self.resolve(a, st) for a in args]
            r = mk("call", "dyncall", f, *ra)
            self.event("call", "dyncall", "dyncall", [f] + ra, r, G, span, ())
            self.clobber("dyncall", args, tys, ra, st)
            return (boolify(r) if dty == "bool" else r), TRUE
        key, path, raw, ta, kr, virt = f.a
        # closures invoked through Fn traits
        if raw.startswith("core::ops::function::Fn") and raw.rsplit("::", 1)[1] in ("call_once", "call_mut", "call"):
            g = self.val(args[0], st)
            a = self.val(args[1], st)
            av = list(a.a) if a.op == "tup" else [a]
            if g.op == "gate":
                return self.call_gated(g, av, [], dty, st, G, span)
            if g.op in ("clo", "fn", "ctor"):
                if g.op == "clo":
                    return self.call_closure(args[0], g, av, dty, st, G, span)
                return self.call(g, av, [""] * len(av), dty, st, G, span)
            ra = [self.resolve(x, st) for x in av]
            r = mk("call", "dyncall", g, *ra)
            self.event("call", "dyncall", "dyncall", [g] + ra, r, G, span, ())
            return (boolify(r) if dty == "bool" else r), TRUE
        sraw = strip_generics(raw)
        m = MODELS.get(sraw)
        if m is None:
            m = MODELS.get("*::" + sraw.rsplit("::", 1)[-1])
            if m is not None and kr in LOCAL:
                m = None
        if m is not None:
            r = m(self, f, sraw, args, tys, dty, st, G, span)
            if r is not NotImplemented:
                if isinstance(r, T):
                    return r, TRUE
                return r
        fn = self.F.fns.get(key) or self.F.polys.get(key)
        if fn is not None and fn.derive and fn.trait and not virt:
            r = self.derived(fn, args, st)
            if r is not None:
                return r, TRUE
        if fn is not None and not virt and (fn.kr in LOCAL or kr in ("core", "alloc", "std")):
            if not self.opaque(fn) and self.stack.count(key) < 1 and len(self.stack) < self.max_depth:
                return self.inline(fn, args, tys, dty, st, G, span, key)
        return self.opaque_call(key if kr in LOCAL else strip_generics(path), sraw, args, tys, dty, st, G, span, ta, f), TRUE

    def call_gated(self, g, av, tys, dty, st, G, span):
        """Call through a gate of callables: evaluate each alternative under its condition."""
        outs = []
        for p, leaf in paths(g):
            if leaf.op in ("dead", "cont"):
                continue
            c = TRUE
            for at, l in p:
                c = b_and(c, mk_gate(at, {l: TRUE}, FALSE) if l is not None else TRUE)
            s2 = dict(st)
            r, rc = self.call(leaf, list(av), [""] * len(av), dty, s2, b_and(G, c), span)
            outs.append((c, r, s2))
        v = DEAD
        for c, r, s in reversed(outs):
            v = ite(c, r, v)
        _, s3 = self.merge([(c, s) for c, r, s in outs], FALSE)
        st.clear(); st.update(s3)
        return v, TRUE

    def call_closure(self, envref, clo, av, dty, st, G, span):
        fn = self.F.fns.get(clo.a[0]) or self.F.polys.get(clo.a[0])
        if fn is None:
            return mk("call", "dyncall", clo, *av), TRUE
        if self.stack.count(fn.key) >= 2:
            return mk("call", fn.key, clo, *[self.resolve(a, st) for a in av]), TRUE
        env = envref if envref.op == "ref" else clo
        return self.inline(fn, [env] + av, [], dty, st, G, span, fn.key)

    def inline(self, fn, args, tys, dty, st, G, span, key):
        if fn is None:
            ra = [self.resolve(a, st) for a in args]
            r = mk("call", key, *ra)
            self.event("call", key, key, ra, r, G, span, ())
            return r, TRUE
        r, rc = self.eval_body(fn, args, st, G)
        return r, rc

    def derived(self, fn, args, st):
        tr = fn.trait.split("<")[0]
        if tr.endswith("::Clone"):
            return self.behind(args[0], st)
        if tr.endswith("::PartialEq") and fn.name == "eq":
            return self.eq(args[0], args[1], st)
        return None

    def clobber(self, path, args, tys, ra, st):
        for i, (a, t) in enumerate(zip(args, tys)):
            if "&mut " in t or t.startswith("*mut") or (a.op == "ref" and "IterMut" in t):
                n = mk("upd", path, i, *ra)
                v = self.val(a, st)
                if v.op == "adt" and a.op != "adt" and "&mut " in t:
                    self.clobber_fields(path, i, v, ra, st)
                if a.op == "ref":
                    self.store(st, a.a[0], a.a[1], n)
                elif a.op == "gate":
                    for x in leaves(a):
                        if x.op == "ref":
                            self.store(st, x.a[0], x.a[1], n)
                elif a.op not in ("c", "adt", "tup", "arr", "fn"):
                    self.update(st, a, (("*",),), n)
                elif a.op == "adt":
                    for x in a.a[2:]:
                        if isinstance(x, T) and x.op == "ref":
                            self.store(st, x.a[0], x.a[1], n)

    def clobber_fields(self, path, i, v, ra, st):
        """what the `&mut` fields of a struct handed out by `&mut` point to may be written too"""
        d = ADTS.get(v.a[0])
        for n, _, fs in (d["variants"] if d else ()):
            if n != v.a[1]:
                continue
            for f, x in zip(fs, v.a[2:]):
                if not (f[1].startswith("&") and " mut " in f[1].split("<")[0] + " ") or not isinstance(x, T):
                    continue
                u = mk("upd", path + "@" + f[0], i, *ra)
                for y in leaves(x):
                    if y.op == "ref":
                        self.store(st, y.a[0], y.a[1], u)
                    elif y.op in ("sym", "fld", "dfld", "upd", "rec"):
                        self.update(st, y, (("*",),), u)

    def opaque_call(self, path, sraw, args, tys, dty, st, G, span, ta, f=None):
        ra = [self.resolve(a, st) for a in args]
        # closures handed to unknown code: their effects may happen
        for a in args:
            v = self.val(a, st)
            if v.op == "clo" and self.stack.count(v.a[0]) < 1:
                fn = self.F.fns.get(v.a[0]) or self.F.polys.get(v.a[0])
                if fn is not None:
                    may = mk_gate(atom_val(mk("may", path, v.a[0])), {True: TRUE, False: FALSE})
                    n = fn.nargs - 1
                    av = [mk("clarg", v.a[0], i, *ra[:1]) for i in range(n)]
                    self.call_closure(a, v, av, "", st, b_and(G, may), span)
        w = self.world(path) if self.world is not None else None
        if w:
            # shared state behind a shared reference: the answer depends on when it is asked
            r = mk("call", path, *(ra + [st.get(WORLD, WORLD)]))
            if "w" in w:
                st[WORLD] = mk("after", r)
        else:
            r = mk("call", path, *ra)
        if dty == "bool":
            r = boolify(r)
        e = self.event("call", path, sraw, ra, r, G, span, ta)
        e.x, e.rty = tys, dty
        e.was = [self.behind(a, st) if t.startswith("&mut ") else x for a, t, x in zip(args, tys, ra)]
        self.clobber(path, args, tys, ra, st)
        # library builder methods: `fn(&mut X, ..) -> &mut X` hands the receiver back, and
        # `fn(&mut X, ..) -> &mut Y` hands out a place inside it
        if tys and tys[0].startswith("&mut ") and dty.startswith("&mut ") and not path.startswith(("core::", "alloc::", "std::", "csvp")):
            if dty == tys[0]:
                return args[0]
            nm = "@" + path.rsplit("::", 1)[-1] + ("#" + ",".join(str(x.id) for x in ra[1:]) if len(ra) > 1 else "")
            if args[0].op == "ref":
                return mk("ref", args[0].a[0], args[0].a[1] + (("f", nm),))
            if args[0].op != "gate":
                return mk("fld", args[0], nm)
        return r

    # ------------------------------------------------------------ iteration
    def strip_rec(self, t):
        n = 0
        k = 0
        while n < 50:
            n += 1
            if t.op == "rec" and t.id in self.rec_info and not self.collected(t):
                t = self.rec_info[t.id][0]
            elif t.op == "upd" and t.a[0].endswith("::next"):
                k += 1
                t = t.a[2]
            else:
                break
        return t, k

    def collected(self, t):
        """a loop's variable which holds a collection (rather than how far something has been iterated)"""
        if len(t.a) != 5 or t.a[4] != "loc" or t.a[0] not in self.F.fns:
            return False
        ls = self.F.fns[t.a[0]].locals
        return isinstance(t.a[3], int) and t.a[3] < len(ls) and ls[t.a[3]].split("<")[0].split("::")[-1] in ("Vec", "VecDeque", "String", "HashMap", "HashSet", "BTreeMap", "BTreeSet")

    def elem(self, it):
        """Abstract element produced by iterating `it`."""
        if it.op == "gate":
            return lift(None, self.elem, it)
        ps = self.pushed(it)
        if ps:
            v = ps[0]
            if len(ps) > 1:
                v = ordered_gate(atom_val(mk("pick", it)), dict(enumerate(ps)), None)
            return v
        base, k = self.strip_rec(it)
        inloop = it.op == "rec"
        if base.op == "gate":
            return lift(None, self.elem, base)
        if base.op == "iter":
            return base.a[1]
        if base.op == "coll":
            return base.a[1]
        if base.op == "arr" and len(base.a) == 1:
            return base.a[0]
        if k and not inloop:
            return mk("nth", base, k)
        return mk("elem", base)

    def pushed(self, t, seen=None):
        """Elements of a collection built up by pushes, [] when nothing is known of it."""
        top = seen is None
        seen = set() if top else seen
        if t.id in seen:
            return []
        seen.add(t.id)
        out = []
        if t.op == "gate":
            for l in leaves(t):
                out += self.pushed(l, seen)
        elif t.op == "upd" and t.a[0] == "push" and len(t.a) == 4:
            out = self.pushed(t.a[2], seen) + [t.a[3]]
        elif t.op == "upd" and t.a[0] == "extend" and len(t.a) == 4 and t.a[3].op == "coll":
            out = self.pushed(t.a[2], seen) + [t.a[3].a[1]]
        elif t.op == "rec" and t.id in self.rec_info and self.rec_info[t.id][1] is not None:
            out = self.pushed(self.rec_info[t.id][0], seen) + self.pushed(self.rec_info[t.id][1], seen)
        elif not top and t.op == "coll":
            out = [t.a[1]]
        elif not top and t.op == "arr":
            out = list(t.a)
        return list(dict.fromkeys(out))

    def icond(self, it):
        base, k = self.strip_rec(it)
        if base.op in ("iter", "coll"):
            return base.a[2]
        return TRUE

    def isrc(self, it):
        base, k = self.strip_rec(it)
        if base.op in ("iter", "coll"):
            return base.a[0]
        return base


MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


from . import models  # noqa: E402
