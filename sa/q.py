"""Queries over an evaluated root: decision tables, sinks, flows."""
from .terms import *
from . import terms as TM

NOTSET = mk("notset")


def sym(n, ty=""):
    return mk("sym", n, ty)


def fld(t, *names):
    for n in names:
        t = mk("fld", t, n)
    return t


def dfld(t, variant, name="0"):
    return mk("dfld", t, variant, name)


def case(t, adt, table, default=None):
    """Decision table on the variant of t."""
    kids = {v: table.get(v, default) if table.get(v, default) is not None else DEAD for v in variants_of(adt)}
    return ordered_gate(atom_disc(t, adt), kids, None)


def is_variant(t, adt, *vs):
    return case(t, adt, {v: TRUE for v in vs}, FALSE)


def some(t):
    return is_variant(t, OPTION, "Some")


OPTION = "core::option::Option"
RESULT = "core::result::Result"


def suffix(path, n=2):
    return "::".join(path.split("::")[-n:])


def evs(E, *sufs):
    """Events whose path ends with one of the suffixes."""
    return [e for e in E.events if any(e.path == s or e.path.endswith("::" + s) or e.raw == s or e.raw.endswith("::" + s) for s in sufs)]


def final(events, argi, init=NOTSET, g=None):
    """Value last handed to a sink as a decision diagram (later calls override earlier ones)."""
    v = init
    for e in events:
        v = ite(e.guard if g is None else b_and(e.guard, g), e.args[argi], v)
    return v


def deep(E, t, seen=None, stop=None):
    """All subterms of t, looking through loop-carried values."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if stop is not None and stop(x):
            continue
        if x.op == "rec" and x.id in E.rec_info:
            st.extend(y for y in E.rec_info[x.id][:2] if isinstance(y, T))
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, T))


def subst(t, H, memo=None):
    """t with terms replaced (H: term -> term), conditions decided again."""
    memo = {} if memo is None else memo

    def go(x):
        r = H.get(x)
        if r is not None:
            return r
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "gate":
            atom, ls, ks, d = x.a
            r = regate(go(atom), {l: go(k) for l, k in zip(ls, ks)}, go(d) if d is not None else None)
        elif not x.a or x.op == "c":
            r = x
        else:
            na = []
            for y in x.a:
                if isinstance(y, T):
                    na.append(go(y))
                elif isinstance(y, tuple) and any(isinstance(w, T) for w in y):
                    na.append(tuple(go(w) if isinstance(w, T) else w for w in y))
                else:
                    na.append(y)
            r = mk(x.op, *na) if any(p is not q for p, q in zip(na, x.a)) else x
        memo[x.id] = r
        return r
    return go(t)


def restrict(t, atom, label):
    """Restrict a decision diagram by atom = label."""
    memo = {}

    def go(x):
        if x.op != "gate":
            return x
        r = memo.get(x.id)
        if r is None:
            a, ls, ks, d = x.a
            if a is atom:
                r = go(cof(x, atom, label))
            else:
                r = ordered_gate(a, {l: go(k) for l, k in zip(ls, ks)}, go(d) if d is not None else None)
            memo[x.id] = r
        return r
    return go(t)


def implies(a, b):
    """a => b as decision diagrams."""
    r = b_and(a, b_not(b))
    return r is FALSE or r is DEAD


def satisfiable(a):
    return any(l is TRUE or l.op not in ("c", "dead", "cont") for l in leaves(a))


def only_true(t):
    """A diagram with boolean leaves where dead ends are read as false."""
    def f(x):
        return FALSE if x is DEAD or x is CONT else x
    return lift("ot", f, t)


def undead(t, by):
    def f(x):
        return by if x is DEAD or x is CONT else x
    return lift(None, f, t)


def where(e):
    return "%s (in %s)" % (e.span, e.fnkey[:120])


def axioms(*dds):
    """Facts relating the atoms of the diagrams: a collection which contains something is not empty."""
    ats = set()
    for d in dds:
        ats |= atoms_of(d)
    has, empty = [], []
    for at in ats:
        if at.op != "a.val":
            continue
        t = at.a[0]
        if t.op == "call" and t.a[0] == "contains":
            has.append((t.a[1], mk_gate(at, {True: TRUE, False: FALSE})))
        elif t.op == "call" and t.a[0] == "len":
            empty.append((t.a[1], mk_gate(at, {0: TRUE}, FALSE)))
    ax = TRUE
    for c, h in has:
        for c2, z in empty:
            if c is c2:
                ax = b_and(ax, b_not(b_and(h, z)))
    return ax


def fits(dd):
    """Read conversions to a narrower integer as succeeding (a failure there panics)."""
    for at in atoms_of(dd):
        if at.op == "a.val" and at.a[0].op == "bin" and at.a[0].a[0] == "Lt" and at.a[0].a[1].op == "c" and at.a[0].a[1].a[1] in (
                (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1):
            dd = restrict(dd, at, False)
    return dd


def same(a, b, under=TRUE, dead=NOTSET):
    """Are the two tables equal wherever `under` (and the axioms) hold?  -> (bool, a', b')"""
    a, b, under = fits(a), fits(b), fits(under)
    a, b = undead(a, dead), undead(b, dead)
    g = only_true(b_and(only_true(under), axioms(a, b, under)))
    a2 = undead(ite(g, a, dead), dead)
    b2 = undead(ite(g, b, dead), dead)
    return a2 is b2, a2, b2


def same_cond(a, b, under=TRUE):
    return same(only_true(a), only_true(b), under, FALSE)


def diff(a, b, hide=None):
    """One assignment on which two decision diagrams disagree."""
    def f(x, y):
        return TRUE if x is y else mk("differ", x, y)
    d = lift(None, f, a, b)
    hidden = atoms_of(hide) if hide is not None else set()
    for p, leaf in paths(d):
        if leaf.op == "differ":
            cond = ", ".join("%s=%s" % (show(at.a[0], 4)[-90:], "other" if l is None else l) for at, l in p if at not in hidden)
            return "when %s: the code gives %s, the specification %s" % (cond or "…", show(leaf.a[0], 4)[:160], show(leaf.a[1], 4)[:160])
    return "the tables differ"


def hoist(t, deepness=4):
    """Move gates out of Some(..)/Ok(..) so that tables over options are plain tables."""
    def f(x):
        if deepness and x.op == "adt" and x.a[0] in (OPTION, RESULT) and len(x.a) == 3:
            inner = hoist(x.a[2], deepness - 1)
            if inner.op == "gate":
                return lift(None, lambda y: y if y is DEAD or y is CONT else mk("adt", x.a[0], x.a[1], y), inner)
            return mk("adt", x.a[0], x.a[1], inner)
        return x
    return lift(None, f, t)


def printed(ctx, fn, opaque=None):
    """What a Display implementation writes -> (engine, self, text diagram)"""
    E = ctx.engine(opaque=opaque or (lambda f: f.key != fn.key and f.name == "fmt"))
    ctx.run(E, fn, ["self", "f"])
    return E, sym("self", fn.locals[1]), flat(E.state.get(sym("f", fn.locals[2]), mk("nothing")))


def flat(t):
    """format!("{}", text) is the text"""
    def f(x):
        if x.op == "fmt" and len(x.a) == 1:
            y = x.a[0]
            if y.op != "disp":
                return y
            if y.a[0] == "Display" and y.a[1].replace("&", "") in ("alloc::string::String", "str"):
                return y.a[2]
        return x
    return lift(None, f, t)


def isv(t, adt, *vs):
    """Is t one of the variants (looking through gates and constructed values)?"""
    def f(x):
        if x is DEAD or x is CONT:
            return x
        if x.op == "adt" and x.a[0] == adt:
            return TRUE if x.a[1] in vs else FALSE
        return is_variant(x, adt, *vs)
    return lift(None, f, t)


def okd(t):
    return isv(t, RESULT, "Ok")


def truth(t):
    """A boolean term as a diagram."""
    return lift(None, boolify, t)


def gates_of(dd):
    seen, st = set(), [dd]
    while st:
        x = st.pop()
        if x.id in seen or x.op != "gate":
            continue
        seen.add(x.id)
        yield x
        st.extend(x.a[2])
        if x.a[3] is not None:
            st.append(x.a[3])


def atoms_with(dd, label):
    """Atoms of the diagram that are compared with `label`."""
    out = []
    for g in gates_of(dd):
        if any(l == label and type(l) is type(label) for l in g.a[1]) and g.a[0] not in out:
            out.append(g.a[0])
    return out


def labels_of(dd, atom):
    return {l for g in gates_of(dd) if g.a[0] is atom for l in g.a[1]}


class OTHER:
    """A label nothing is compared with."""


def built(E, t):
    """How a sequence is built: [(element, condition)] with one entry per way of adding, plus whether anything else can happen to it.
    Understands collect()ed iterators and loops of push.  -> (start, [(element, cond)], clean)"""
    if t.op == "coll":
        return None, [(t.a[1], t.a[2])], True
    if t.op == "rec" and t.id in E.rec_info and E.rec_info[t.id][1] is not None:
        init, step = E.rec_info[t.id][:2]
        out, clean = [], True
        cs = TRUE
        groups = {}

        def f(x):
            return mk("p", x.a[3]) if x.op == "upd" and x.a[0] == "push" and len(x.a) == 4 and x.a[2] is t else x
        dd = lift(None, f, step)
        for l in leaves(dd):
            if l.op == "p":
                out.append((l.a[0], lift(None, lambda x: TRUE if x is l else x if x in (DEAD, CONT) else FALSE, dd)))
            elif l is t:
                out.append((None, lift(None, lambda x: TRUE if x is l else x if x in (DEAD, CONT) else FALSE, dd)))
            elif l not in (DEAD, CONT):
                clean = False
        return init, out, clean
    if t.op == "upd" and t.a[0] == "push" and len(t.a) == 4:
        i, o, c = built(E, t.a[2])
        return i, o + [(t.a[3], TRUE)], c
    return t, [], t.op in ("coll", "arr") or empty_seq(t)


def empty_seq(t):
    return (t.op == "arr" and not t.a) or (t.op == "call" and t.a[0].split("::")[-1] in ("new", "with_capacity", "default")) or t.op == "default"


def each_in_order(E, t, src):
    """Is t exactly [f(x) for x in src]?  -> f(x) or None"""
    init, parts, clean = built(E, t)
    if not clean or len(parts) != 1 or parts[0][0] is None:
        return None
    if init is not None and not empty_seq(init):
        return None
    e, c = parts[0]
    if undead(c, TRUE) is not TRUE:
        return None
    srcs = [x.a[0] for x in deep(E, e) if x.op == "elem"]
    if t.op == "coll":
        ok = t.a[0] is src or E.isrc(t.a[0]) is src
    else:
        ok = any(s is src or E.isrc(s) is src for s in srcs)
    return e if ok else None


def goes_on(E, e, cond):
    """Can a loop around event e run another iteration although cond (about e's result) held?"""
    for lid in e.loops:
        lc = E.latch.get(lid)
        if lc is not None and satisfiable(b_and(b_and(only_true(lc), only_true(e.guard)), cond)):
            return True
    return False


def must_stop(E, r, e):
    """An error of call e is never swallowed: no success and no further iteration after it."""
    err = is_variant(e.ret, RESULT, "Err")
    g = b_and(only_true(e.guard), err)
    return not satisfiable(b_and(only_true(okd(r)), g)) and not goes_on(E, e, err)


def given(t, *facts):
    """t with the facts (atom, label) applied at every depth."""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "gate":
            y = x
            for at, lab in facts:
                y = restrict(y, at, lab)
            if y.op == "gate":
                a, ls, ks, d = y.a
                r = ordered_gate(a, {l: go(k) for l, k in zip(ls, ks)}, go(d) if d is not None else None)
            else:
                r = go(y) if y is not x else y
        elif x.op == "rec":
            r = x
        else:
            na, ch = [], False
            for y in x.a:
                if isinstance(y, T):
                    z = go(y)
                elif isinstance(y, tuple) and any(isinstance(w, T) for w in y):
                    z = tuple(go(w) if isinstance(w, T) else w for w in y)
                else:
                    z = y
                ch = ch or z is not y
                na.append(z)
            r = mk(x.op, *na) if ch else x
        memo[x.id] = r
        return r
    return go(t)


TEXT = ("str", "alloc::string::String")


def pieces(t):
    """A printed text as the list of what it is made of, in order: constant strings and (kind, type, value)."""
    out = []

    def put(x):
        if isinstance(x, str):
            if x and out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            out.append(x)

    def go(x):
        if x.op == "c" and isinstance(x.a[1], str):
            put(x.a[1])
        elif x.op == "fmt":
            for y in x.a:
                go(y)
        elif x.op == "disp":
            ty = x.a[1].replace("&", "").replace("mut ", "")
            if ty.startswith("alloc::boxed::Box<"):
                ty = ty[18:-1]
            if x.a[0] == "Display" and ty in TEXT and (x.a[2].op in ("fmt", "disp") or (x.a[2].op == "c" and isinstance(x.a[2].a[1], str))):
                go(x.a[2])
            else:
                put((x.a[0], "str" if ty in TEXT else ty, x.a[2]))
        else:
            put(("Display", "str", x))
    go(t)
    return out


class Auto:
    """A loop over characters as an automaton: its flags are the states, classes of characters the inputs.

    lid: the loop; dds: diagrams whose leaves matter (what is appended...); char: the term of the current character;
    choose(cls, atom) -> label of an atom about the character (None: unknown)"""

    class Unknown(Exception):
        pass

    def __init__(self, E, lid, dds, choose, done=lambda a: None):
        self.E, self.choose, self.done = E, choose, done
        self.lc = only_true(E.latch[lid])
        self.dds = {k: ite(self.lc, d, NOTSET) for k, d in dds.items()}
        self.flags = {}
        todo = [self.lc] + list(self.dds.values())
        while todo:
            d = todo.pop()
            for t in [a.a[0] for a in atoms_of(d)] + [l for l in leaves(d)]:
                for f in ([t] if t.op == "rec" else []):
                    if f.id in E.rec_info and f not in self.flags and self.is_flag(f):
                        self.flags[f] = ite(self.lc, E.rec_info[f.id][1], NOTSET)
                        todo.append(self.flags[f])
        self.start = tuple(sorted(((f.id, self.const(E.rec_info[f.id][0])) for f in self.flags), key=str))
        self.byid = {f.id: f for f in self.flags}

    def is_flag(self, f):
        i, s = self.E.rec_info[f.id][:2]
        return s is not None and self.const(i) is not None and all(
            l in (DEAD, CONT, NOTSET) or self.const(l) is not None or l.op == "rec" for l in leaves(s))

    @staticmethod
    def const(t):
        if t.op == "c":
            return ("c", t.a[1])
        if t.op == "adt" and len(t.a) == 2:
            return ("v", t.a[1])
        return None

    def pin(self, dd, state, cls=None, end=False):
        for rid, v in state:
            f = self.byid[rid]
            for a in atoms_of(dd):
                if a.a and a.a[0] is f:
                    lab = v[1]
                    dd = restrict(dd, a, lab if lab in labels_of(dd, a) else OTHER)
        for a in list(atoms_of(dd)):
            lab = self.done(a) if end else self.choose(cls, a)
            if lab is not None:
                dd = restrict(dd, a, lab if lab in labels_of(dd, a) else OTHER)
        return dd

    def leaf(self, dd):
        ls = {l for l in leaves(dd) if l not in (DEAD, CONT, NOTSET)}
        if not ls:
            return None
        if len(ls) > 1:
            raise Auto.Unknown(show(dd, 3))
        return list(ls)[0]

    def splits(self, dds):
        """All assignments of what is still open (conditions on something other than the state and the character)."""
        out, todo = [], [([], dds)]
        while todo:
            done, ds = todo.pop()
            at = next((a for d in ds for a in atoms_of(d)), None)
            if at is None:
                out.append((done, ds))
                if len(out) > 200:
                    raise Auto.Unknown("too many conditions")
                continue
            labs = set()
            for d in ds:
                labs |= labels_of(d, at)
            if at.op == "a.val" and any(type(x) is not bool for x in labs):
                labs = labs | {OTHER}
            elif at.op == "a.disc":
                vs = variants_of(at.a[1]) if isinstance(at.a[1], str) else None
                labs = labs | set(vs or [OTHER])
            for l in labs:
                todo.append((done + [(at, l)], [restrict(d, at, l) for d in ds]))
        return out

    def step(self, state, cls):
        """-> [(next state or None when the loop stops here, {name: leaf}, open conditions)]"""
        names = list(self.dds)
        fl = list(state)
        ds = [self.pin(self.lc, state, cls)] + [self.pin(self.dds[k], state, cls) for k in names] + \
            [self.pin(self.flags[self.byid[rid]], state, cls) for rid, _ in fl]
        out = []
        for cond, ds in self.splits(ds):
            outs = {k: self.leaf(d) for k, d in zip(names, ds[1:])}
            if ds[0] is not TRUE:
                out.append((None, outs, cond))
                continue
            new = []
            for (rid, v), d in zip(fl, ds[1 + len(names):]):
                l = self.leaf(d)
                c = self.const(l) if l is not None else None
                if c is None and l is not None and l.op == "rec" and l.id in self.byid:
                    c = dict(state)[l.id]
                if c is None:
                    raise Auto.Unknown(show(d, 3))
                new.append((rid, c))
            out.append((tuple(new), outs, cond))
        return out


def bisimulate(auto, classes, spec_start, spec, compare, final=None):
    """Run the automaton next to a specification: spec(state, cls) -> (state' or None, expected).
    compare(outs, expected) -> bool.  Yields (what, ok)."""
    seen, todo = set(), [(spec_start, auto.start)]
    while todo:
        s, a = todo.pop()
        if (s, a) in seen:
            continue
        seen.add((s, a))
        if final is not None:
            yield ("end in state %s" % (s,), final(s, a))
        for c in classes:
            s2, want = spec(s, c)
            for a2, outs, cond in auto.step(a, c):
                why = "".join(", %s=%s" % (show(x.a[0], 3)[:60], l) for x, l in cond)
                yield ("%s in state %s" % (c, s) + why, compare(s2, a2, outs, want))
                if s2 is not None and a2 is not None:
                    todo.append((s2, a2))


def prefixes(E, t):
    """t with the ways in which the bytes of the first characters for which P holds are counted - a loop which stops
    at the first other one, a search for it - turned into one: sum(take_while(chars(x), P), len_utf8)."""
    is_ = lambda x, *ns: x.op == "call" and isinstance(x.a[0], str) and x.a[0].split("::")[-1] in ns
    CH = "core::str::<impl str>::chars"

    def total(x, P):
        ch = mk("call", CH, x)
        return mk("call", "sum", mk("take_while", ch, P), mk("call", "core::char::methods::<impl char>::len_utf8", mk("elem", ch)), TRUE)
    H = {}
    for u in subterms(t):
        if u.op == "gate" and u.a[0].op == "a.disc" and is_(u.a[0].a[0], "find") and u.a[0].a[0].a[0].startswith("core::str"):
            c = u.a[0].a[0]
            ks = dict(zip(u.a[1], u.a[2]))
            n, s = ks.get("None", u.a[3]), ks.get("Some", u.a[3])
            if n is not None and s is dfld(c, "Some") and is_(n, "len") and n.a[1] is c.a[1] and is_cond(c.a[2]):
                H[u] = total(c.a[1], b_not(c.a[2]))
        elif is_(u, "len") and is_(u.a[1], "trim_start_matches") and False:
            pass
        elif u.op == "rec" and u.id in E.rec_info and len(u.a) > 4 and u.a[4] == "loc":
            info = E.rec_info[u.id]
            lid = (u.a[0], u.a[1], u.a[2]) if (u.a[0], u.a[1], u.a[2]) in E.latch else (u.a[0], u.a[1])
            L = E.latch.get(lid)
            if info[1] is None or L is None or not (info[0].op == "c" and info[0].a[1] == 0):
                continue
            st = info[1]
            if not (st.op == "bin" and st.a[0] == "Add" and u in st.a[1:3]):
                continue
            w = st.a[2] if st.a[1] is u else st.a[1]
            if not (is_(w, "len_utf8") and w.a[1].op == "elem" and is_(w.a[1].a[0], "chars")):
                continue
            ch = w.a[1].a[0]
            its = [r for r in (x for x in subterms(L) if x.op == "next") if r.a[0].op == "rec" and E.rec_info.get(r.a[0].id, [None])[0] is ch]
            if len({x.id for x in its}) != 1:
                continue
            P = L
            for a in atoms_of(L):
                if a.op == "a.disc" and a.a[0] is its[0]:
                    P = given(P, (a, "Some"))
            if any(x.op == "rec" and x.a[:3] == u.a[:3] for x in subterms(P)):
                continue
            H[u] = total(ch.a[1], only_true(P))
    return subst(t, H) if H else t


def is_cond(t):
    return t.op == "gate" or t is TRUE or t is FALSE


def collected(E, t):
    """t with the lists which a loop makes by adding to an empty one, at most once in every turn and with nothing else to it,
    turned into what collecting the same elements gives."""
    memo = E.__dict__.setdefault("_collected", {})
    H = {}
    for u in subterms(t):
        if u.op == "rec" and u.id in E.rec_info and len(u.a) > 4 and u.a[4] == "loc":
            if u.id not in memo:
                memo[u.id] = None
                memo[u.id] = one_list(E, u)
            if memo[u.id] is not None:
                H[u] = memo[u.id]
    return subst(t, H) if H else t


def one_list(E, u):
    init, step = E.rec_info[u.id][:2]
    L = E.latch.get(tuple(u.a[:3]))
    if step is None or L is None or not empty_seq(init):
        return None
    els, c = set(), lift(None, lambda x: DEAD if x in (DEAD, CONT) else TRUE if x.op == "upd" and last_(x.a[0]) == "push" and len(x.a) == 4 and x.a[2] is u else
                         FALSE if x is u else mk("other", x), step)
    if any(l.op == "other" for l in leaves(c)):
        return None
    v = lift(None, lambda x: x.a[3] if x.op == "upd" else DEAD, step)
    # the iterator that the loop goes through
    its, inner = {}, []
    for a in atoms_of(L):
        if a.op == "a.disc" and a.a[0].op == "next" and a.a[0].a[0].op == "rec" and tuple(a.a[0].a[0].a[:3]) == tuple(u.a[:3]):
            its[a.a[0].a[0].id] = (a, a.a[0].a[0])
        elif a.op == "a.disc" and a.a[0].op == "next" and a.a[0].a[0].op == "rec":       # (a loop inside of it: it has ended)
            inner.append(a)
    if len(its) != 1:
        return None
    at, it = next(iter(its.values()))
    i = E.rec_info.get(it.id)
    if not i:
        return None
    src = collected(E, i[0])
    left = given(E.leaves[tuple(u.a[:3])], (at, "Some"), *[(a, "None") for a in inner])
    for a in atoms_of(left):                # (an error: the loop is left, and the function)
        if a.op == "a.disc" and a.a[1] == RESULT:
            left = given(left, (a, "Ok"))
    if only_true(left) is not FALSE:
        return None
    v, c = (given(x, (at, "Some")) for x in (v, c))
    for a in atoms_of(L):
        if a in inner or a.op == "a.disc" and a.a[1] == RESULT:
            v, c = (given(x, (a, "None" if a in inner else "Ok")) for x in (v, c))
    c = only_true(c) if c.op == "gate" else c
    v = given(collected(E, v), (at, "Some"))
    v, c = pinned(v, at, "Some"), pinned(c, at, "Some")
    if any(x is u or x is it for x in subterms(v)) or any(x is u or x is it for x in subterms(c)):
        return None
    ic = E.icond(src)
    return mk("coll", E.isrc(src), v, b_and(ic, c) if ic is not TRUE else c)


def last_(p):
    return p.split("::")[-1]


def pinned(t, at, lab):
    """like given, in what decisions are about, too"""
    for _ in range(4):
        H = {x: restrict(x, at, lab) for x in subterms(t) if x.op == "gate" and x.a[0] is at}
        if not H:
            break
        t = subst(t, H)
    return t


def all_collected(E, r):
    """The same for everything that was seen; returns r so changed."""
    if not any(x[3].op == "rec" and x[1] is not None and len(x) > 3 and any(y.op == "upd" and last_(y.a[0]) == "push" for y in leaves(x[1])) for x in E.rec_info.values() if len(x) > 3):
        return r
    go = lambda t: collected(E, t) if isinstance(t, T) else t
    for e in E.events:
        e.args, e.ret, e.guard = [go(a) for a in e.args], go(e.ret), go(e.guard)
        for a in atoms_of(e.guard):
            if a.op == "a.disc" and a.a[0].op == "next" and e.loops and restrict(only_true(e.guard), a, "None") in (FALSE, DEAD):
                e.args, e.ret = [pinned(x, a, "Some") if isinstance(x, T) else x for x in e.args], pinned(e.ret, a, "Some") if isinstance(e.ret, T) else e.ret
    for i in E.rec_info.values():
        i[0], i[1] = go(i[0]), go(i[1])
    return go(r)
