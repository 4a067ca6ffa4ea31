"""Hash-consed terms of the gated value-flow graph, with multi-valued decision diagrams as gates.

A *gate* term selects between values by an atom (the variant of an opaque enum value, the value of
an opaque bool/int/char/string).  Gates are kept ordered and reduced, so the same decision table has
one representation whatever the order or shape of the tests that produced it."""
import sys
sys.setrecursionlimit(200000)

_tab = {}


class T:
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        _tab[k] = t
    return t


def c_int(v):
    return mk("c", "i", v)


def c_bool(v):
    return TRUE if v else FALSE


def c_str(v):
    return mk("c", "s", v)


def c_char(v):
    return mk("c", "ch", v)


TRUE = mk("c", "b", True)
FALSE = mk("c", "b", False)
UNIT = mk("tup")
DEAD = mk("dead")
CONT = mk("cont")
UNDEF = mk("undef")

ADTS = {}  # path -> {"variants":[(name,discr,[(field,ty,pub)])], "kind":...}


def variants_of(adt):
    d = ADTS.get(adt)
    return [v[0] for v in d["variants"]] if d else None


def fields_of(adt, v):
    d = ADTS.get(adt)
    if not d:
        return None
    for n, _, fs in d["variants"]:
        if n == v:
            return [f[0] for f in fs]
    return None


# ---------------------------------------------------------------- gates
def atom_disc(t, adt):
    return mk("a.disc", t, adt)


def atom_val(t):
    return mk("a.val", t)


def mk_gate(atom, kids, default=None):
    """kids: dict label -> T. For a.disc atoms all variants are listed (missing -> default or DEAD)."""
    if atom.op == "a.disc":
        vs = variants_of(atom.a[1])
        if vs is not None:
            kids = {v: kids.get(v, default if default is not None else DEAD) for v in vs}
            default = None
    elif set(kids) == {True, False} and all(isinstance(k, bool) for k in kids):
        default = None
    elif default is not None and set(kids) <= {True, False} and kids and all(isinstance(k, bool) for k in kids):
        for b in (True, False):
            kids.setdefault(b, default)
        default = None
    vals = set(kids.values())
    if default is not None:
        vals.add(default)
    live = vals - {DEAD}
    if len(live) == 0:
        return DEAD
    if len(live) == 1:
        return next(iter(live))
    if default is not None:
        kids = {k: v for k, v in kids.items() if v is not default}
    items = tuple(sorted(kids.items(), key=lambda kv: (str(type(kv[0])), kv[0])))
    return mk("gate", atom, tuple(k for k, _ in items), tuple(v for _, v in items), default)


def is_gate(t):
    return t.op == "gate"


def cof(t, atom, label):
    if t.op == "gate" and t.a[0] is atom:
        ls = t.a[1]
        if label in ls:
            return t.a[2][ls.index(label)]
        if t.a[3] is not None:
            return t.a[3]
        return DEAD
    return t


def cof_default(t, atom):
    if t.op == "gate" and t.a[0] is atom:
        return t.a[3] if t.a[3] is not None else DEAD
    return t


_lift_memo = {}


class Budget(Exception):
    """an evaluation has become too large"""


_work = [0, None]


def limited(n):
    """let the terms made from now on take no more than n steps (None: as many as they need)"""
    _work[1] = None if n is None else _work[0] + n


def lift(name, f, *ts):
    """Apply f (on non-gate terms) pointwise through the gates of ts. name: memo key or None."""
    g = [t for t in ts if t.op == "gate"]
    if not g:
        return f(*ts)
    key = (name,) + tuple(t.id for t in ts) if name is not None else None
    if key is not None:
        r = _lift_memo.get(key)
        if r is not None:
            return r
    _work[0] += 1
    if _work[1] is not None and _work[0] > _work[1]:
        raise Budget
    atom = min((t.a[0] for t in g), key=lambda a: a.id)
    labels = []
    hasdef = False
    for t in g:
        if t.a[0] is atom:
            for l in t.a[1]:
                if l not in labels:
                    labels.append(l)
            if t.a[3] is not None:
                hasdef = True
    kids = {}
    for l in labels:
        kids[l] = lift(name, f, *[cof(t, atom, l) for t in ts])
    d = None
    if hasdef:
        d = lift(name, f, *[cof_default(t, atom) for t in ts])
    r = ordered_gate(atom, kids, d)
    if key is not None:
        _lift_memo[key] = r
    return r


def topid(t):
    return t.a[0].id if t.op == "gate" else 1 << 60


def ordered_gate(atom, kids, d):
    """mk_gate that restores the order if a kid has a gate above `atom` (f may have created one)."""
    alls = list(kids.values()) + ([d] if d is not None else [])
    if all(topid(k) > atom.id for k in alls):
        return mk_gate(atom, kids, d)
    # kids contain atoms ordered before (or equal to) `atom`
    labels = list(kids)
    best = min((k for k in alls if k.op == "gate"), key=lambda k: k.a[0].id).a[0]
    if best is atom:
        kk = {l: cof(kids[l], atom, l) for l in labels}
        dd = cof_default(d, atom) if d is not None else None
        return ordered_gate(atom, kk, dd)
    bl = []
    hasdef = False
    for k in alls:
        if k.op == "gate" and k.a[0] is best:
            for l in k.a[1]:
                if l not in bl:
                    bl.append(l)
            hasdef = hasdef or k.a[3] is not None
    nk = {}
    for l in bl:
        nk[l] = ordered_gate(atom, {x: cof(kids[x], best, l) for x in labels}, cof(d, best, l) if d is not None else None)
    nd = None
    if hasdef:
        nd = ordered_gate(atom, {x: cof_default(kids[x], best) for x in labels}, cof_default(d, best) if d is not None else None)
    return mk_gate(best, nk, nd)


def b_and(x, y):
    if x is TRUE:
        return y
    if y is TRUE:
        return x
    if x is FALSE or y is FALSE:
        return FALSE
    if x is y:
        return x
    if x.id > y.id:
        x, y = y, x
    def f(a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is DEAD or b is DEAD:
            return DEAD
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        return b_and(boolify(a), boolify(b))
    return lift("and", f, x, y)


def boolify(t):
    if t.op in ("c", "gate", "dead", "cont"):
        return t
    return mk_gate(atom_val(t), {True: TRUE, False: FALSE})


def b_not(x):
    def f(a):
        if a is TRUE:
            return FALSE
        if a is FALSE:
            return TRUE
        if a is DEAD or a is CONT:
            return a
        return mk_gate(atom_val(a), {True: FALSE, False: TRUE})
    return lift("not", f, x)


def b_or(x, y):
    if x is y:
        return x
    if x is TRUE or y is TRUE:
        return TRUE
    if x is FALSE:
        return y
    if y is FALSE:
        return x
    if x.id > y.id:
        x, y = y, x
    def f(a, b):
        if a is TRUE or b is TRUE:
            return TRUE
        if a is DEAD:
            return b
        if b is DEAD:
            return a
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        return b_or(boolify(a), boolify(b))
    return lift("or", f, x, y)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    def f(cc, aa, bb):
        if cc is TRUE:
            return aa
        if cc is FALSE:
            return bb
        if cc is DEAD:
            return DEAD
        if aa is bb:
            return aa
        if cc is CONT:
            return CONT
        return mk_gate(atom_val(cc), {True: aa, False: bb})
    return lift("ite", f, c, a, b)


def forget(dd, pred):
    """Existentially quantify the boolean diagram over atoms satisfying pred."""
    memo = {}
    def go(t):
        if t.op != "gate":
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        atom, ls, ks, d = t.a
        ks2 = [go(k) for k in ks]
        d2 = go(d) if d is not None else None
        if pred(atom):
            r = FALSE
            for k in ks2 + ([d2] if d2 is not None else []):
                if k is not DEAD:
                    r = b_or(r, k)
        else:
            r = ordered_gate(atom, dict(zip(ls, ks2)), d2)
        memo[t.id] = r
        return r
    return go(dd)


def atoms_of(dd):
    out, seen, st = set(), set(), [dd]
    while st:
        t = st.pop()
        if t.id in seen or t.op != "gate":
            continue
        seen.add(t.id)
        out.add(t.a[0])
        st.extend(t.a[2])
        if t.a[3] is not None:
            st.append(t.a[3])
    return out


def leaves(t):
    """Leaf terms of the top-level gates of t."""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "gate":
            st.extend(x.a[2])
            if x.a[3] is not None:
                st.append(x.a[3])
        elif x.op not in ("dead", "cont"):
            out.append(x)
    return out


def paths(t, limit=5000):
    """Yield (list of (atom,label), leaf); label None is 'any other'."""
    n = 0
    st = [((), t)]
    while st:
        p, x = st.pop()
        if x.op == "gate":
            atom, ls, ks, d = x.a
            for l, k in zip(ls, ks):
                st.append((p + ((atom, l),), k))
            if d is not None:
                st.append((p + ((atom, None),), d))
        else:
            n += 1
            if n > limit:
                raise RuntimeError("path limit")
            yield p, x


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, T))


def assume(t, choose, memo=None):
    """Deep restriction. choose(atom) -> label | None(no info) | ('not', labels)."""
    if memo is None:
        memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "gate":
            atom, ls, ks, d = x.a
            c = choose(atom)
            if c is None:
                na = go(atom)
                kk = {l: go(k) for l, k in zip(ls, ks)}
                dd = go(d) if d is not None else None
                r = regate(na, kk, dd)
            elif isinstance(c, tuple) and c and c[0] == "not":
                kk = {l: go(k) for l, k in zip(ls, ks) if l not in c[1]}
                dd = go(d) if d is not None else None
                if dd is None and atom.op == "a.disc":
                    r = ordered_gate(atom, kk, None)
                else:
                    r = ordered_gate(atom, kk, dd) if kk else (dd if dd is not None else DEAD)
            else:
                r = go(cof(x, atom, c))
        elif not x.a or x.op == "c":
            r = x
        else:
            na = []
            ch = False
            for y in x.a:
                if isinstance(y, T):
                    z = go(y)
                    ch = ch or z is not y
                    na.append(z)
                elif isinstance(y, tuple) and any(isinstance(w, T) for w in y):
                    z = tuple(go(w) if isinstance(w, T) else w for w in y)
                    ch = ch or z != y
                    na.append(z)
                else:
                    na.append(y)
            r = mk(x.op, *na) if ch else x
        memo[x.id] = r
        return r
    return go(t)


def regate(atom, kids, d):
    """Rebuild a gate whose atom may have become decidable after substitution."""
    if atom.op == "a.disc":
        def f(x):
            if x.op == "adt":
                return kids.get(x.a[1], d if d is not None else DEAD)
            return ordered_gate(atom_disc(x, atom.a[1]), dict(kids), d)
        return lift(None, f, atom.a[0])
    if atom.op == "a.val":
        def f(x):
            if x.op == "c":
                return kids.get(x.a[1], d if d is not None else DEAD)
            return ordered_gate(atom_val(x), dict(kids), d)
        return lift(None, f, atom.a[0])
    return ordered_gate(atom, kids, d)


def show(t, depth=5):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "c":
        return repr(t.a[1]) if t.a[0] != "ch" else repr(chr(t.a[1]))
    if depth <= 0:
        return "…"
    d = depth - 1
    o = t.op
    short = lambda p: p.split("::")[-1] if isinstance(p, str) and "<" not in p else (p[-40:] if isinstance(p, str) else str(p))
    if o == "sym":
        return t.a[0]
    if o == "fld":
        return show(t.a[0], depth) + "." + t.a[1]
    if o == "dfld":
        return show(t.a[0], depth) + "." + t.a[1] + "!" + t.a[2]
    if o == "adt":
        n = short(t.a[0])
        if n != t.a[1]:
            n += "::" + t.a[1]
        fs = fields_of(t.a[0], t.a[1]) or []
        if t.a[2:] and fs and not fs[0].isdigit():
            return n + "{" + ", ".join(f"{f}:{show(x, d)}" for f, x in zip(fs, t.a[2:])) + "}"
        return n + ("(" + ", ".join(show(x, d) for x in t.a[2:]) + ")" if t.a[2:] else "")
    if o == "gate":
        at = t.a[0]
        s = ("disc " if at.op == "a.disc" else "") + show(at.a[0], d)
        return "⟨" + s + "? " + "; ".join(f"{l}→{show(k, d)}" for l, k in zip(t.a[1], t.a[2])) + (f"; *→{show(t.a[3], d)}" if t.a[3] is not None else "") + "⟩"
    if o == "call":
        return short(t.a[0]) + "(" + ", ".join(show(x, d) for x in t.a[1:] if isinstance(x, T)) + ")"
    if o == "upd":
        return "upd:" + short(t.a[0]) + "(" + ", ".join(show(x, d) for x in t.a[1:] if isinstance(x, T)) + ")"
    if o == "with":
        return show(t.a[0], d) + "{" + t.a[1] + "=" + show(t.a[2], d) + "}"
    if o == "fn":
        return "fn " + t.a[0]
    return o + "(" + ", ".join(show(x, d) if isinstance(x, T) else (str(x) if not isinstance(x, tuple) else "[" + ",".join(show(y, d) if isinstance(y, T) else str(y) for y in x) + "]") for x in t.a) + ")"
