"""Lock analysis on MIR: which guards are live where, what every function may acquire, threads, and decisions made under another guard than the change."""
import re

GUARD = re.compile(r"(?<![&\w])(?<!mut )(?<!const )(?:[\w]+::)*(RwLockReadGuard|RwLockWriteGuard|MappedRwLockReadGuard|MappedRwLockWriteGuard|MutexGuard|MappedMutexGuard|ReentrantLockGuard|RefMut|Ref)<")
ACQ = {"read": "shared", "write": "excl", "lock": "excl", "borrow": "shared", "borrow_mut": "excl", "try_read": "try-shared", "try_write": "try-excl", "try_lock": "try-excl",
       "try_borrow": "try-shared", "try_borrow_mut": "try-excl"}
CLOSURE = re.compile(r"\{(?:closure|async block|async fn body|coroutine)@([^}]*?)\}")


def holds(ty):
    """the types of the guards a value of this type owns"""
    if ty.startswith("&") or ty.startswith("*"):
        return False
    t = re.sub(r"&(?:'\w+ )?(?:mut )?(?:[\w]+::)*(RwLockReadGuard|RwLockWriteGuard|MutexGuard|RefMut|Ref)<", "", ty)
    return bool(GUARD.search(t))


def last(p):
    return re.sub(r"::<[^<>]*(?:<[^<>]*>[^<>]*)*>$", "", p).split("::")[-1]


def local_of(pl):
    return pl if isinstance(pl, int) else pl[0]


def operands(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    return [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ("m", "c")]


class Acq:
    """an acquisition: (kind of data, name of the field) in a mode"""
    __slots__ = ("ty", "name", "mode", "site", "cell")

    def __init__(self, ty, name, mode, site, cell):
        self.ty, self.name, self.mode, self.site, self.cell = ty, name, mode, site, cell

    def key(self):
        return (self.ty, self.name)

    def __repr__(self):
        return "%s of %s" % ("a borrow" if self.cell else "the lock", self.name or self.ty)


def same_lock(a, b):
    return a.ty == b.ty and a.cell == b.cell and (a.name == b.name or a.name is None or b.name is None)


class Locks:
    def __init__(self, F):
        self.F = F
        self.fns = {k: f for k, f in F.fns.items() if f.local}
        self.by_span = {}
        for f in self.fns.values():
            if f.closure:
                self.by_span.setdefault(f.span, []).append(f)
        self.clo_of = {}          # (fn key, local) -> closure keys
        self.defs = {}
        for f in self.fns.values():
            d = {}
            for bi, b in enumerate(f.blocks):
                for s in b[0]:
                    if s[0] == "=":
                        d.setdefault(local_of(s[1]), []).append((bi, s))
                        if s[2][0] == "agg" and s[2][1].get("k") in ("clo", "closure", "cor", "coroutine"):
                            self.clo_of.setdefault((f.key, local_of(s[1])), set()).add(s[2][1].get("key"))
                t = b[1]
                if t[0] == "call":
                    d.setdefault(local_of(t[3]), []).append((bi, t))
            self.defs[f.key] = d
        self.acq = {k: {} for k in self.fns}      # key -> {acq key: Acq}
        self.direct = {}
        self.calls = {}
        for f in self.fns.values():
            self.direct[f.key] = [(bi, a) for bi, b in enumerate(f.blocks) for a in [self.acquisition(f, bi)] if a]
            self.calls[f.key] = [(bi, self.callees(f, b[1])) for bi, b in enumerate(f.blocks) if b[1][0] == "call"]
        self.spawned_keys = set()
        for f in self.fns.values():
            for bi, (cs, clos) in self.calls[f.key]:
                if self.is_spawn(f.blocks[bi][1]):
                    self.spawned_keys |= set(clos)
        self.fix()

    # ---- structure
    def path_of(self, t):
        fn = t[1]
        return fn[1].get("p", "") if fn[0] == "k" and "p" in fn[1] else ""

    def is_spawn(self, t):
        p = self.path_of(t)
        return last(p) in ("spawn", "spawn_scoped", "spawn_unchecked", "spawn_fifo", "spawn_blocking", "spawn_local") and ("thread" in p or "rayon" in p or "tokio" in p or "std" in p)

    def is_scope(self, t):
        p = self.path_of(t)
        return last(p) in ("scope", "in_place_scope") and ("thread" in p or "rayon" in p)

    def is_join(self, t):
        p = self.path_of(t)
        return last(p) in ("join", "block_on") and ("thread" in p or "JoinHandle" in p or "tokio" in p or "rayon" in p)

    def callees(self, f, t):
        """(functions called, closures which are handed over)"""
        fn = t[1]
        cs = []
        if fn[0] == "k" and "fn" in fn[1]:
            k = fn[1]["fn"]
            if k in self.fns:
                cs = [k]
            elif fn[1].get("raw") in ("core::convert::TryInto::try_into", "core::convert::Into::into") and len(fn[1].get("ta") or ()) == 2:
                # the other side of a conversion
                a, b = fn[1]["ta"]
                n = "try_from" if fn[1]["raw"].endswith("try_into") else "from"
                cs = [g.key for g in self.fns.values() if g.name == n and g.trait and g.nargs == 1 and g.locals[1] == a and (g.self_ty == b or b in g.locals[0])]
            elif fn[1].get("raw") and fn[1].get("kr") in ("csvp", "csvpp") or "dyn " in k:
                raw = fn[1].get("raw", "")
                tr, _, m = raw.rpartition("::")
                cs = [g.key for g in self.fns.values() if g.name == m and g.trait and g.trait.split("<")[0] == tr.split("<")[0]]
        clos = set()
        for a in t[2]:
            op, ty = a[0], a[1] if len(a) > 1 else ""
            if op[0] in ("m", "c"):
                clos |= self.closures_in(f, local_of(op[1]))
            elif op[0] == "k" and "fn" in op[1] and op[1]["fn"] in self.fns:
                clos.add(op[1]["fn"])
            elif op[0] == "k" and "clo" in op[1]:
                clos.add(op[1]["clo"])
        # a call of a closure value
        return cs, {c for c in clos if c in self.fns}

    def closures_in(self, f, l, seen=None):
        seen = seen or set()
        if l in seen:
            return set()
        seen.add(l)
        out = set(self.clo_of.get((f.key, l), ()))
        if "closure@" in f.locals[l] or "async" in f.locals[l] or "dyn " in f.locals[l]:
            for _, s in self.defs[f.key].get(l, ()):
                if s[0] == "=":
                    for op in operands(s[2]):
                        if op and op[0] in ("m", "c"):
                            out |= self.closures_in(f, local_of(op[1]), seen)
                    if s[2][0] == "ref":
                        out |= self.closures_in(f, local_of(s[2][2]), seen)
                    if s[2][0] == "agg":
                        for op in s[2][2]:
                            if op[0] in ("m", "c"):
                                out |= self.closures_in(f, local_of(op[1]), seen)
                elif s[0] == "call":
                    for a in s[2]:
                        if a[0][0] in ("m", "c"):
                            out |= self.closures_in(f, local_of(a[0][1]), seen)
                        elif a[0][0] == "k" and "clo" in a[0][1]:
                            out.add(a[0][1]["clo"])
        return out

    def origin(self, f, l, depth=0):
        """name of the field a reference comes from"""
        if depth > 30:
            return None
        ds = self.defs[f.key].get(l, ())
        if len(ds) != 1:
            return None
        s = ds[0][1]
        if s[0] == "call":
            n = last(self.path_of(s))
            if n in ("deref", "deref_mut", "as_ref", "borrow", "clone", "index", "index_mut") and s[2] and s[2][0][0][0] in ("m", "c"):
                return self.place_name(f, s[2][0][0][1], depth + 1)
            return None
        rv = s[2]
        if rv[0] == "ref":
            return self.place_name(f, rv[2], depth + 1)
        if rv[0] in ("use", "cast"):
            op = operands(rv)[0]
            if op[0] in ("m", "c"):
                return self.place_name(f, op[1], depth + 1)
        return None

    def place_name(self, f, pl, depth):
        if not isinstance(pl, int):
            for e in reversed(pl[1]):
                if e[0] == "f" and not str(e[1]).isdigit():
                    # a captured variable is named by the place it was made of
                    if re.match(r"up\d+$", str(e[1])):
                        break
                    return str(e[1])
            l = pl[0]
        else:
            l = pl
        return self.origin(f, l, depth)

    def acquisition(self, f, bi):
        t = f.blocks[bi][1]
        if t[0] != "call":
            return None
        n = last(self.path_of(t))
        if n not in ACQ or not holds(t[5] if isinstance(t[5], str) else f.locals[local_of(t[3])]):
            return None
        p = self.path_of(t)
        if not any(k in p for k in ("Lock", "Mutex", "RefCell", "cell::")):
            return None
        ta = t[1][1].get("ta") or [""]
        name = None
        if t[2] and t[2][0][0][0] in ("m", "c"):
            name = self.place_name(f, t[2][0][0][1], 0)
        return Acq(ta[-1] if ta else "", name, ACQ[n], (f.key, bi), "RefCell" in p)

    def fix(self):
        for k in self.fns:
            for _, a in self.direct[k]:
                self.add(k, a)
        ch = True
        while ch:
            ch = False
            for k in self.fns:
                for _, (cs, clos) in self.calls[k]:
                    for c in list(cs) + list(clos):
                        for a in list(self.acq[c].values()):
                            ch |= self.add(k, a)

    def add(self, k, a):
        d = self.acq[k]
        kk = (a.key(), a.mode, a.cell)
        if kk in d:
            return False
        d[kk] = a
        return True

    def reachable(self, roots):
        out, todo = set(), [r for r in roots if r in self.fns]
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            for _, (cs, clos) in self.calls[k]:
                todo += list(cs) + list(clos)
        return out

    # ---- guards
    def flow(self, f):
        """guards each local may own at the start of each block"""
        init = {}
        for i in range(1, f.nargs + 1):
            if holds(f.locals[i]):
                m = GUARD.search(f.locals[i])
                init[i] = frozenset([Acq(None, None, "excl", (f.key, -i), False)])
        IN = {0: init}
        todo = [0]
        hold = [holds(t) for t in f.locals]
        while todo:
            bi = todo.pop()
            st = dict(IN[bi])
            self.stmts(f, bi, st, hold)
            for nb, s2 in self.term(f, bi, st, hold):
                old = IN.get(nb)
                if old is None:
                    IN[nb] = s2
                    todo.append(nb)
                else:
                    new = dict(old)
                    ch = False
                    for l, g in s2.items():
                        u = new.get(l, frozenset()) | g
                        if u != new.get(l, frozenset()):
                            new[l] = u
                            ch = True
                    if ch:
                        IN[nb] = new
                        todo.append(nb)
        return IN

    def stmts(self, f, bi, st, hold):
        for s in f.blocks[bi][0]:
            if s[0] == "dead":
                st.pop(s[1], None)
            elif s[0] == "=":
                g = frozenset()
                for op in operands(s[2]):
                    if op and op[0] == "m":
                        l = local_of(op[1])
                        if l in st:
                            g |= st.pop(l)
                d = local_of(s[1])
                if g:
                    st[d] = st.get(d, frozenset()) | g if not isinstance(s[1], int) else g
                elif isinstance(s[1], int):
                    st.pop(d, None)

    def term(self, f, bi, st, hold):
        t = f.blocks[bi][1]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "switch":
            return [(x[1], dict(st)) for x in t[2]] + ([(t[3], dict(st))] if t[3] is not None else [])
        if k == "drop":
            st.pop(local_of(t[1]), None) if isinstance(t[1], int) else None
            return [(t[2], st)]
        if k == "assert":
            return [(t[4 - 1], st)] if isinstance(t[3], int) else []
        if k == "call":
            g = frozenset()
            for a in t[2]:
                if a[0][0] == "m":
                    l = local_of(a[0][1])
                    if l in st:
                        g |= st.pop(l)
            d = local_of(t[3])
            if hold[d]:
                a = self.acquisition(f, bi)
                if a:
                    g = frozenset([a])
                elif not g:
                    cs, clos = self.callees(f, t)
                    g = frozenset(x for c in list(cs) + list(clos) for x in self.acq[c].values())
                if g:
                    st[d] = g
            else:
                st.pop(d, None)
            return [(t[4], st)] if t[4] is not None else []
        if k == "other":
            return []
        return []

    def at_call(self, f, IN, bi):
        if bi not in IN:
            return set()
        st = dict(IN[bi])
        self.stmts(f, bi, st, None)
        t = f.blocks[bi][1]
        moved = {local_of(a[0][1]) for a in t[2] if a[0][0] == "m"}
        return {a for l, g in st.items() if l not in moved for a in g}

    def spawns(self, f):
        """closures run by threads this function starts"""
        return {c for bi, (cs, clos) in self.calls[f.key] if self.is_spawn(f.blocks[bi][1]) for c in clos}

    def conflicts(self):
        """(function, block, held, acquired, what) and the edges of the lock order"""
        out, edges, n = [], {}, 0
        for f in self.fns.values():
            IN = None
            for bi, (cs, clos) in self.calls[f.key]:
                t = f.blocks[bi][1]
                a = self.acquisition(f, bi)
                got = [a] if a else []
                if not self.is_spawn(t):
                    for c in list(cs) + list(clos):
                        got += list(self.acq[c].values())
                if self.is_join(t):
                    for c in self.spawned_keys:
                        got += list(self.acq[c].values())
                if not got:
                    continue
                if IN is None:
                    IN = self.flow(f)
                n += 1
                for h in self.at_call(f, IN, bi):
                    for g in got:
                        if h.ty is None and h.cell != g.cell:
                            continue
                        if h.ty is None or same_lock(h, g):
                            if h.cell and h.mode.endswith("shared") and g.mode.endswith("shared"):
                                continue
                            out.append((f, bi, h, g))
                        else:
                            edges.setdefault((h.key(), g.key()), (f, bi))
        return out, edges, n

    # ---- decisions
    def derived(self, f):
        """guard sites the data in a local comes from (through a guard)"""
        D = {}
        guards = {}
        # locals that own a guard -> its sites, regardless of where
        IN = self.flow(f)
        own = {}
        for bi in IN:
            st = dict(IN[bi])
            for l, g in st.items():
                own.setdefault(l, set()).update(g)
            self.stmts(f, bi, st, None)
            for l, g in st.items():
                own.setdefault(l, set()).update(g)
        # references to them
        ch = True
        ref = {l: set(g) for l, g in own.items()}
        while ch:
            ch = False
            for bi, b in enumerate(f.blocks):
                for s in b[0]:
                    if s[0] != "=":
                        continue
                    d = local_of(s[1])
                    rv = s[2]
                    if rv[0] == "ref" and local_of(rv[2]) in ref and f.locals[d].startswith("&"):
                        new = ref[local_of(rv[2])]
                        if "Guard<" in f.locals[d] or "Ref<" in f.locals[d] or "RefMut<" in f.locals[d]:
                            if not new <= ref.get(d, set()):
                                ref.setdefault(d, set()).update(new)
                                ch = True
                    src = set()
                    if rv[0] in ("ref", "disc"):
                        src = D.get(local_of(rv[2] if rv[0] == "ref" else rv[1]), set())
                    for op in operands(rv):
                        if op and op[0] in ("m", "c"):
                            src = src | D.get(local_of(op[1]), set())
                    if src and not src <= D.get(d, set()):
                        D.setdefault(d, set()).update(src)
                        ch = True
                t = b[1]
                if t[0] == "call":
                    d = local_of(t[3])
                    src = set()
                    n = last(self.path_of(t))
                    for a in t[2]:
                        if a[0][0] in ("m", "c"):
                            l = local_of(a[0][1])
                            src |= D.get(l, set())
                            if n in ("deref", "deref_mut", "as_ref", "map") and l in ref:
                                src |= ref[l]
                    cs, clos = self.callees(f, t)
                    rt = f.locals[d]
                    if rt not in ("()", "!") and not rt.startswith("core::result::Result<()"):
                        for c in cs:
                            for x in self.acq[c].values():
                                src.add(Acq(x.ty, x.name, x.mode, (f.key, bi), x.cell))
                    old = {(x.key(), x.site) for x in D.get(d, set())}
                    new = {x for x in src if (x.key(), x.site) not in old}
                    if new:
                        D.setdefault(d, set()).update(new)
                        ch = True
        return D

    def control(self, f):
        """block -> the switches it is control dependent on (transitively)"""
        n = len(f.blocks)
        succ = []
        for b in f.blocks:
            t = b[1]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == "drop":
                s = [t[2]]
            elif k == "assert":
                s = [t[3]] if isinstance(t[3], int) else []
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            else:
                s = []
            succ.append(s)
        full = frozenset(range(n)) | {n}
        pd = [set(full) for _ in range(n)] + [{n}]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                ss = succ[i] or [n]
                new = set.intersection(*[pd[x] for x in ss]) | {i}
                if new != pd[i]:
                    pd[i] = new
                    ch = True
        cd = {i: set() for i in range(n)}
        for a in range(n):
            if len(set(succ[a])) < 2:
                continue
            for b in range(n):
                if any(b in pd[s] for s in succ[a]) and not (b in pd[a] and b != a):
                    cd[b].add(a)
        ch = True
        while ch:
            ch = False
            for b in cd:
                new = set(cd[b])
                for a in cd[b]:
                    new |= cd[a]
                if new != cd[b]:
                    cd[b] = new
                    ch = True
        return cd

    def stale(self, f):
        """changes under a guard decided by what was seen under another guard of the same lock"""
        acts = []
        if not self.acq[f.key]:
            return [], 0
        D = self.derived(f)
        for bi, (cs, clos) in self.calls[f.key]:
            t = f.blocks[bi][1]
            who = set()
            if last(self.path_of(t)) not in ("deref", "deref_mut", "drop"):
                for a in t[2]:
                    if a[0][0] in ("m", "c") and a[1].startswith("&mut") or a[0][0] in ("m", "c") and f.locals[local_of(a[0][1])].startswith("&mut"):
                        who |= {x for x in D.get(local_of(a[0][1]), ()) if x.mode.endswith("excl")}
            for c in cs:
                who |= {Acq(x.ty, x.name, x.mode, (f.key, bi), x.cell) for x in self.acq[c].values() if x.mode.endswith("excl")}
            if who:
                acts.append((bi, who))
        out = []
        if acts:
            cd = self.control(f)
            for bi, who in acts:
                for a in cd[bi]:
                    op = f.blocks[a][1][1]
                    if op[0] not in ("m", "c"):
                        continue
                    for seen in D.get(local_of(op[1]), ()):
                        for w in who:
                            if same_lock(seen, w) and seen.site != w.site:
                                out.append((f, bi, w, seen))
        return out, len(acts)
