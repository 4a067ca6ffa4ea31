"""Order analysis on MIR: what is done with the elements of collections and threads that come in no particular order."""
import re

from sa.locks import Locks, last, local_of, operands

UNORDERED = re.compile(r"hash::(?:map|set)::(?!HashMap\b|HashSet\b)\w+|fs::ReadDir|mpsc::(?:Iter|IntoIter|TryIter)|rayon::iter::par_bridge|IterBridge")
HASHED = re.compile(r"hash::(?:map::HashMap|set::HashSet)<")
KEYED = re.compile(r"^(?:&mut |&)*(?:[\w]+::)*(HashMap|HashSet|BTreeMap|BTreeSet)<")
PAR = re.compile(r"\brayon::(?!vec::IntoIter\b)|rayon::vec::IntoIter")
# what does not depend on the order
ANY_ORDER = {"any", "all", "count", "len", "sum", "product", "max", "min", "is_empty", "size_hint", "contains", "is_subset", "is_superset", "is_disjoint", "eq", "ne", "clone", "cloned", "copied",
             "drop", "fmt"}
# adaptors which keep every element
ADAPT = {"into_iter", "iter", "iter_mut", "map", "filter", "filter_map", "chain", "cloned", "copied", "flat_map", "flatten", "by_ref", "inspect", "peekable", "values", "keys", "values_mut", "into_values",
         "into_keys", "drain", "difference", "intersection", "union", "symmetric_difference", "par_iter", "into_par_iter", "par_bridge", "with_min_len", "with_max_len", "enumerate_", "from", "into", "as_ref", "as_mut",
         "borrow", "borrow_mut", "deref", "deref_mut", "branch", "extract_if", "fuse", "scan_", "map_while_", "read_dir", "unzip_"}
POSITION = {"enumerate", "zip", "take", "skip", "step_by", "last", "position", "nth", "find", "find_map", "min_by", "max_by", "min_by_key", "max_by_key", "reduce", "take_while", "skip_while", "map_while", "scan", "chunks",
            "find_any", "find_map_any", "position_any", "find_first_", "join", "concat", "rev_", "partition_", "cmp", "partial_cmp", "lt", "gt"}
PUSH = {"push", "push_str", "push_back", "push_front", "write_str", "write_fmt", "write_char", "write_all", "write", "insert_str", "append", "send", "print", "_print", "_eprint", "writeln"}
KEEPS = {"insert", "remove", "retain", "extend", "entry", "get_mut", "contains", "contains_key", "get", "clear", "take", "replace", "or_insert", "or_insert_with", "or_default", "and_modify", "or_insert_with_key", "extend_one", "reserve"}
SAME = {"clone", "to_string", "to_owned", "deref", "as_ref", "as_str", "borrow", "into", "from", "cloned", "copied", "as_deref", "to_vec", "deref_mut", "as_mut", "branch", "unwrap", "expect"}
SORT = re.compile(r"^sort")


def path(t):
    fn = t[1]
    return fn[1].get("p", "") if fn[0] == "k" and "p" in fn[1] else ""


def succ(b):
    t = b[1]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][:1] if not isinstance(t[-2], int) else [x for x in t if isinstance(x, int) and not isinstance(x, bool)][:1]
    return []


class Order:
    def __init__(self, F, L=None):
        self.F = F
        self.L = L or Locks(F)
        self.fns = dict(self.L.fns)
        self.sites = []      # (fn, block, what) which have been decided
        self.bad = []        # (fn, block, message)
        self.notes = []
        self.loops = 0
        self.elems = set()

    def defs(self, f):
        return self.L.defs.get(f.key) or {}

    # ---- where references come from
    def root(self, f, l, inner, depth=0):
        """outer locals (or 'elem') a local may refer to"""
        if depth > 25:
            return {"?"}
        if l in self.elems:
            return {l}
        if l not in inner:
            return {l}
        out = set()
        for _, s in self.defs(f).get(l, ()):
            if s[0] == "=":
                rv = s[2]
                if rv[0] == "ref" or rv[0] == "addr":
                    out |= self.root(f, local_of(rv[2]), inner, depth + 1)
                elif rv[0] in ("use", "cast", "agg"):
                    for op in operands(rv):
                        if op and op[0] in ("m", "c"):
                            out |= self.root(f, local_of(op[1]), inner, depth + 1)
            elif s[0] == "call":
                dest = f.locals[l]
                if "&" in dest or "Guard" in dest or "RefMut" in dest or "Entry" in dest or "'" in dest or "Result<" in dest or "ControlFlow<" in dest:
                    for a in s[2]:
                        if a[0][0] in ("m", "c"):
                            out |= self.root(f, local_of(a[0][1]), inner, depth + 1)
        return out

    def of_elem(self, f, op, elems, depth=0):
        """is it the element itself (or a part of a keyed one) with nothing lost?"""
        if op[0] not in ("m", "c") or depth > 25:
            return False
        pl = op[1]
        l = local_of(pl)
        if l in elems:
            fs = [e[1] for e in pl[1] if e[0] == "f"] if not isinstance(pl, int) else []
            return fs in ([], ["0"], ["0", "0"])
        ds = self.defs(f).get(l, ())
        if not ds:
            return False
        for _, s in ds:
            if s[0] == "=":
                rv = s[2]
                if rv[0] == "ref":
                    if not self.of_elem(f, ["c", rv[2]], elems, depth + 1):
                        return False
                elif rv[0] in ("use", "cast"):
                    if not self.of_elem(f, operands(rv)[0], elems, depth + 1):
                        return False
                else:
                    return False
            else:
                if last(path(s)) not in SAME or not s[2] or not self.of_elem(f, s[2][0][0], elems, depth + 1):
                    return False
        return True

    # ---- loops
    def reach(self, f, start, stop=()):
        out, todo = set(), [start]
        while todo:
            b = todo.pop()
            if b in out or b in stop or b is None or f.blocks[b][2]:
                continue
            out.add(b)
            todo += succ(f.blocks[b])
        return out

    def loop(self, f, bi, elem_iter=True):
        """a call of next(): (blocks of the body, first block after it) or None when it is no loop"""
        t = f.blocks[bi][1]
        o = local_of(t[3])
        nb = t[4]
        seen = set()
        while nb is not None and nb not in seen:
            seen.add(nb)
            b = f.blocks[nb]
            if b[1][0] == "switch":
                d = b[1][1]
                src = [s for s in b[0] if s[0] == "=" and s[1] == (d[1] if d[0] in "mc" else None) and s[2][0] == "disc" and local_of(s[2][1]) == o]
                if not src:
                    return None
                none = next((x[1] for x in b[1][2] if x[0] == 0), b[1][3])
                some = next((x[1] for x in b[1][2] if x[0] == 1), b[1][3])
                fwd = self.reach(f, some, (none,) if none != some else ())
                body = {x for x in fwd if bi in self.reach(f, x, (none,))}
                if bi not in body:
                    return None
                return body | {nb}, some, none, o
            if b[1][0] == "goto":
                nb = b[1][1]
            else:
                return None
        return None

    def inner(self, f, body):
        """locals which live in the body only"""
        where = {}

        def seen(l, b):
            where.setdefault(l, set()).add(b)
        for bi, b in enumerate(f.blocks):
            if b[2]:
                continue
            for s in b[0]:
                if s[0] == "=":
                    seen(local_of(s[1]), bi)
                    rv = s[2]
                    for op in operands(rv):
                        if op and op[0] in ("m", "c"):
                            seen(local_of(op[1]), bi)
                    if rv[0] in ("ref", "addr"):
                        seen(local_of(rv[2]), bi)
                    if rv[0] in ("disc", "len"):
                        seen(local_of(rv[1]), bi)
            t = b[1]
            if t[0] == "call":
                seen(local_of(t[3]), bi)
                for a in t[2]:
                    if a[0][0] in ("m", "c"):
                        seen(local_of(a[0][1]), bi)
        fw = set(body)
        return {l for l, bs in where.items() if any(x in body for x in bs) and l > f.nargs and l != 0 and self.starts_in(f, l, body)}

    def starts_in(self, f, l, body):
        ds = [b for b, s in self.defs(f).get(l, ()) if not f.blocks[b][2] and (s[0] != "=" or isinstance(s[1], int))]
        return bool(ds) and all(b in body for b in ds)

    def const_op(self, op):
        return op[0] == "k"

    def commutes(self, f, s, l):
        """x += e and the like"""
        rv = s[2]
        if rv[0] in ("bin",):
            if rv[1] in ("Add", "AddUnchecked", "BitOr", "BitAnd", "BitXor", "Mul", "AddWithOverflow"):
                return any(o[0] in "mc" and local_of(o[1]) in {l} | self.copies(f, l) for o in rv[2:4])
            return False
        if rv[0] in ("use", "cast"):
            op = operands(rv)[0]
            if op[0] in "mc":
                ds = [x for x in self.defs(f).get(local_of(op[1]), ()) if not f.blocks[x[0]][2]]
                if len(ds) == 1 and ds[0][1][0] == "call":
                    t = ds[0][1]
                    return last(path(t)) in ("max", "min", "saturating_add", "wrapping_add", "bitor") and any(a[0][0] in "mc" and local_of(a[0][1]) in {l} | self.copies(f, l) for a in t[2])
                return len(ds) == 1 and self.commutes(f, ds[0][1], l) and re.match(r"(&mut )?([ui](8|16|32|64|128|size)|bool)$", f.locals[l]) is not None
        return False

    def copies(self, f, l):
        return {x for x, ds in self.defs(f).items() for _, s in ds if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in "mc" and s[2][1][1] == l}

    def check_loop(self, f, bi, lp, kind):
        body, some, none, o = lp
        self.loops += 1
        inner = self.inner(f, body)
        elems = self.elems = {o}
        why = []
        sorted_later = set()
        for b2, b in enumerate(f.blocks):
            t = b[1]
            if t[0] == "call" and SORT.match(last(path(t))) and t[2] and t[2][0][0][0] in ("m", "c") and b2 not in body:
                sorted_later |= self.root(f, local_of(t[2][0][0][1]), set(range(f.nargs + 1, len(f.locals))) - {0}, 0) | self.bases(f, local_of(t[2][0][0][1]))
        for b in body:
            blk = f.blocks[b]
            if blk[2]:
                continue
            for s in blk[0]:
                if s[0] != "=":
                    continue
                l = local_of(s[1])
                if l in inner and isinstance(s[1], int):
                    continue
                if l in inner:
                    roots = self.root(f, l, inner)
                    if not any(e[0] == "*" for e in s[1][1]) or roots <= elems | {"?"} or not (roots - elems):
                        continue
                    if self.keyed_ref(f, l, elems, inner):
                        continue
                ops = [x for x in operands(s[2]) if x]
                if s[2][0] in ("use", "agg", "cast") and all(self.const_op(x) for x in ops):
                    continue
                if s[2][0] in ("use", "cast", "agg", "ref") and self.invariant(f, s[2], body, inner):
                    continue
                if self.commutes(f, s, l):
                    continue
                if l == o:
                    continue
                why.append((b, "keeps what the last element leaves behind"))
            t = blk[1]
            if t[0] == "call" and b != bi:
                why += [(b, m) for m in self.effect(f, t, elems, inner, sorted_later, body)]
                d = local_of(t[3])
                if d not in inner and d != 0 and not self.builder(f, t, d):
                    why.append((b, "keeps what the last element leaves behind"))
        # leaving early
        after = self.reach(f, none, (bi,))
        for b in body:
            for n in succ(f.blocks[b]):
                if n in body or n == none or f.blocks[n][2]:
                    continue
                if f.blocks[b][1][0] == "switch" and n == none:
                    continue
                out = self.reach(f, n, body)
                if not any(f.blocks[x][1][0] in ("ret", "return") for x in out):
                    continue        # it ends in a panic
                ahead = out - after
                bad = False
                for x in ahead | ({n} if n not in after else set()):
                    for s in f.blocks[x][0]:
                        if s[0] == "=" and local_of(s[1]) not in inner and not all(self.const_op(y) for y in operands(s[2]) if y) and self.depends(f, s[2], inner):
                            bad = True
                    t = f.blocks[x][1]
                    if t[0] == "call" and any(a[0][0] in "mc" and local_of(a[0][1]) in inner for a in t[2]) and (local_of(t[3]) not in inner):
                        bad = True
                    if t[0] == "call" and last(path(t)) == "from_residual":
                        bad = True
                if bad:
                    why.append((b, "ends with what is found first"))
        return why

    def bases(self, f, l, depth=0):
        """the locals a reference was made of"""
        out = {l}
        if depth > 12:
            return out
        for _, s in self.defs(f).get(l, ()):
            if s[0] == "=":
                rv = s[2]
                if rv[0] == "ref":
                    out |= self.bases(f, local_of(rv[2]), depth + 1)
                elif rv[0] in ("use", "cast"):
                    op = operands(rv)[0]
                    if op[0] in "mc":
                        out |= self.bases(f, local_of(op[1]), depth + 1)
            elif s[0] == "call" and last(path(s)) in ("deref_mut", "as_mut", "as_mut_slice", "borrow_mut"):
                for a in s[2][:1]:
                    if a[0][0] in "mc":
                        out |= self.bases(f, local_of(a[0][1]), depth + 1)
        return out

    def depends(self, f, rv, inner):
        ls = [local_of(x[1]) for x in operands(rv) if x and x[0] in "mc"] + ([local_of(rv[2])] if rv[0] in ("ref", "addr") else [])
        return any(l in inner for l in ls)

    def invariant(self, f, rv, body, inner):
        """made of what does not change in the loop"""
        ls = [local_of(x[1]) for x in operands(rv) if x and x[0] in "mc"] + ([local_of(rv[2])] if rv[0] in ("ref", "addr") else [])
        return bool(ls) and all(l not in inner and not any(b in body for b, _ in self.defs(f).get(l, ())) for l in ls)

    def keyed_ref(self, f, l, elems, inner, depth=0):
        """a reference to the place of the element in a keyed collection (get_mut(elem), entry(elem))"""
        if depth > 15:
            return False
        ds = self.defs(f).get(l, ())
        for _, s in ds:
            if s[0] == "=":
                rv = s[2]
                src = local_of(rv[2]) if rv[0] == "ref" else local_of(operands(rv)[0][1]) if rv[0] in ("use", "cast") and operands(rv)[0][0] in "mc" else None
                if src is None or not (src in elems or self.keyed_ref(f, src, elems, inner, depth + 1)):
                    return False
            else:
                n = last(path(s))
                if n in ("get_mut", "entry", "index_mut", "get_or_insert_with") and len(s[2]) > 1 and self.of_elem(f, s[2][1][0], elems):
                    continue
                if n in SAME | {"or_insert", "or_insert_with", "or_default", "and_modify"} and s[2] and s[2][0][0][0] in "mc" and self.keyed_ref(f, local_of(s[2][0][0][1]), elems, inner, depth + 1):
                    continue
                return False
        return bool(ds)

    def builder(self, f, t, d):
        return any(a[0][0] in "mc" and local_of(a[0][1]) == d for a in t[2])

    def effect(self, f, t, elems, inner, sorted_later, body):
        """order dependent effects of a call in the body of a loop on what lives outside of it"""
        p = path(t)
        n = last(p)
        out = []
        for i, a in enumerate(t[2]):
            op, ty = a[0], a[1] if len(a) > 1 else ""
            if op[0] not in ("m", "c") or not ("&mut" in ty or "Formatter" in ty or "Guard" in ty or "Entry<" in ty):
                continue
            l = local_of(op[1])
            roots = self.root(f, l, inner) - elems if l in inner else {l}
            roots -= {"?"}
            if not roots:
                continue
            if roots & sorted_later:
                continue
            if self.is_log(t):
                continue
            if n in PUSH and not KEYED.match(ty):
                out.append("puts the elements one after the other (%s)" % n)
            elif n == "insert":
                k = KEYED.match(ty)
                if not k:
                    out.append("inserts the elements where there is an order")
                elif k.group(1).endswith("Map") and not (len(t[2]) > 1 and self.of_elem(f, t[2][1][0], elems)):
                    out.append("inserts under keys which several elements may have")
            elif n == "extend":
                if not KEYED.match(ty):
                    out.append("puts the elements one after the other (extend)")
                elif KEYED.match(ty).group(1).endswith("Map"):
                    out.append("extends a map with what several elements may have")
            elif n in ("next", "next_back", "nth", "pop", "pop_front", "pop_back", "swap_remove", "fetch_add") :
                out.append("gives the elements what comes next (%s)" % n)
            else:
                for g in self.L.callees(f, t)[0]:
                    given = {j + 1 for j, x in enumerate(t[2]) if self.of_elem(f, x[0], elems)}
                    m = self.ordered_write(self.fns[g], i + 1, given)
                    if m:
                        out.append("%s (in %s)" % (m, g.split("::")[-1]))
        if n in ("_print", "_eprint") and any(a[0][0] in "mc" and local_of(a[0][1]) in inner for a in t[2]):
            out.append("prints the elements")
        # closures with captured state
        for g in self.L.callees(f, t)[1]:
            pass
        return out

    def is_log(self, t):
        return path(t).startswith("log::") or "log::__private_api" in path(t)

    def ordered_write(self, g, arg, given=(), seen=None):
        """does a function leave something behind in its argument that depends on which element comes first or last?"""
        seen = seen or set()
        if (g.key, arg) in seen or not g.blocks:
            return None
        seen.add((g.key, arg))
        allin = set(range(1, len(g.locals))) - {arg}
        was, self.elems = self.elems, set()
        try:
            for bi, b in enumerate(g.blocks):
                if b[2]:
                    continue
                for s in b[0]:
                    if s[0] == "=" and not isinstance(s[1], int) and any(e[0] == "*" for e in s[1][1]) and arg in self.root(g, s[1][0], allin) and "&mut" in g.locals[arg] + g.locals[s[1][0]]:
                        if not all(self.const_op(x) for x in operands(s[2]) if x) and not self.commutes(g, s, s[1][0]) and not g.closure:
                            return "keeps what the last element leaves behind"
                t = b[1]
                if t[0] != "call":
                    continue
                for i, a in enumerate(t[2]):
                    ty = a[1] if len(a) > 1 else ""
                    if a[0][0] not in "mc" or "&mut" not in ty:
                        continue
                    l = local_of(a[0][1])
                    if l != arg and arg not in self.root(g, l, allin):
                        continue
                    n = last(path(t))
                    k = KEYED.match(ty)
                    if n in PUSH and not k or n in ("insert", "extend") and not k:
                        return "puts the elements one after the other (%s)" % n
                    if n == "insert" and k.group(1).endswith("Map") and not (len(t[2]) > 1 and self.of_elem(g, t[2][1][0], given)):
                        return "inserts under keys which several elements may have"
                    if n == "extend" and k.group(1).endswith("Map"):
                        return "extends a map with what several elements may have"
                    for h in self.L.callees(g, t)[0]:
                        m = self.ordered_write(self.fns[h], i + 1, {j + 1 for j, x in enumerate(t[2]) if self.of_elem(g, x[0], given)}, seen)
                        if m:
                            return m
        finally:
            self.elems = was
        return None

    # ---- all uses
    def run(self, logged):
        for f in self.fns.values():
            if f.derive:
                continue
            for bi, b in enumerate(f.blocks):
                t = b[1]
                if b[2] or t[0] != "call":
                    continue
                self.use(f, bi, t, logged)

    def use(self, f, bi, t, logged):
        n = last(path(t))
        dest = f.locals[local_of(t[3])]
        tys = [a[1] for a in t[2] if len(a) > 1]
        uno = any(UNORDERED.search(x) for x in tys)
        par = any(PAR.search(x) for x in tys)
        hashed = any(HASHED.search(x) and not x.startswith("&") for x in tys) and not uno
        if not uno and not par and not (hashed and n in ("extend", "from_iter", "collect", "chain", "zip")):
            if self.bridge(t):
                self.sites.append((f, bi, n))
                self.bad.append((f, bi, "the elements are put one after the other (%s)" % n))
            return
        self.sites.append((f, bi, n))

        def bad(m, at=bi):
            self.bad.append((f, at, m))
        if logged(f):
            return
        if n == "next" and uno:
            lp = self.loop(f, bi)
            if lp is None:
                d = t[3]
                bad("the first of elements without an order is taken")
                return
            for b, m in self.check_loop(f, bi, lp, None):
                bad("a loop over elements without an order " + m, b)
            return
        if n in ("collect", "from_iter", "extend", "partition", "unzip", "collect_into_vec", "from_par_iter"):
            d = dest if n != "extend" else tys[0]
            if KEYED.match(d):
                return
            if re.match(r"(?:\w+::)*(Result|ControlFlow)<", d):
                bad("which of several errors is kept depends on %s" % ("the threads" if par else "an arbitrary order"))
            elif uno and not self.sorted_after(f, t):
                bad("elements without an order are put one after the other")
            return
        if n in ANY_ORDER or (n in ADAPT or UNORDERED.search(dest) or PAR.search(dest)) and n not in POSITION:
            self.captured(f, bi, t, bad)
            return
        if n in POSITION and (uno or n.endswith("_any")):
            bad("the place of elements without an order matters (%s)" % n)
            return
        if n in ("for_each", "try_for_each", "fold", "try_fold", "for_each_with"):
            self.captured(f, bi, t, bad)
            if n.startswith("try") and "Result<" in dest:
                bad("which of several errors is kept depends on %s" % ("the threads" if par else "an arbitrary order"))
            return
        cs = self.L.callees(f, t)[0]
        if uno and not cs and n not in KEEPS:
            self.notes.append("%s of elements without an order (in %s) is not analysed" % (n, f.key))

    def bridge(self, t):
        """a hash collection is handed over as a whole to where it becomes a sequence"""
        n = last(path(t))
        tys = [a[1] for a in t[2] if len(a) > 1]
        return n in ("extend", "append") and len(tys) == 2 and HASHED.match(tys[1].lstrip("&").replace("std::collections::", "", 1) if False else tys[1].lstrip("&")) is not None and not KEYED.match(tys[0])

    def sorted_after(self, f, t):
        d = local_of(t[3])
        for b in f.blocks:
            u = b[1]
            if u[0] == "call" and SORT.match(last(path(u))) and u[2] and u[2][0][0][0] in "mc" and d in self.flow_back(f, local_of(u[2][0][0][1])):
                return True
        return False

    def flow_back(self, f, l):
        out, todo = set(), [l]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            for _, s in self.defs(f).get(x, ()):
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] == "ref":
                        todo.append(local_of(rv[2]))
                    for op in operands(rv):
                        if op and op[0] in "mc":
                            todo.append(local_of(op[1]))
                elif s[0] == "call" and last(path(s)) in ("deref_mut", "as_mut", "as_mut_slice", "branch", "unwrap"):
                    todo += [local_of(a[0][1]) for a in s[2][:1] if a[0][0] in "mc"]
        return out

    def captured(self, f, bi, t, bad):
        """what the closures of an adaptor leave behind"""
        for c in self.L.callees(f, t)[1]:
            g = self.fns.get(c)
            if g is None or not g.closure:
                continue
            m = self.ordered_write(g, 1, {2})
            if m:
                bad("a closure over elements without an order " + m)

    # ---- what threads write to
    def threads(self):
        roots = set(self.L.spawned_keys)
        for f in self.fns.values():
            for bi, (cs, clos) in self.L.calls[f.key]:
                t = f.blocks[bi][1]
                if any(PAR.search(a[1]) for a in t[2] if len(a) > 1):
                    roots |= set(clos)
        R = self.L.reachable(roots)
        n = 0
        for k in R:
            f = self.fns[k]
            for bi, a in self.L.direct[k]:
                if a.cell or a.mode not in ("excl", "try-excl"):
                    continue
                n += 1
                if not KEYED.search(a.ty) and not re.fullmatch(r"bool|\(\)", a.ty):
                    w = self.thread_push(f)
                    if w:
                        self.bad.append((f, bi, "what the threads leave behind in a %s is in the order in which they come" % a.ty.split("::")[-1][:40]))
            for bi, b in enumerate(f.blocks):
                t = b[1]
                if t[0] == "call" and "atomic" in path(t) and last(path(t)).startswith(("fetch_add", "fetch_sub", "fetch_update", "compare_exchange")):
                    d = local_of(t[3])
                    used = any(op and op[0] in "mc" and local_of(op[1]) == d for b2 in f.blocks for s in b2[0] if s[0] == "=" for op in operands(s[2]))
                    if used:
                        self.bad.append((f, bi, "a number given to a thread depends on which one comes first"))
        return n, R

    def thread_push(self, f):
        for b in f.blocks:
            t = b[1]
            if t[0] == "call" and last(path(t)) in PUSH | {"insert", "extend"} and t[2] and len(t[2][0]) > 1 and not KEYED.match(t[2][0][1]) and "Formatter" not in t[2][0][1]:
                return True
        return False
