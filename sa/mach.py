"""Character-level machines: a parsing function read off the source as a transducer, compared with a specified one.

The control points are the loops of a function (everything it calls inlined) and its start.  From the diagrams of the evaluated
function (latch and entry conditions of the loops, their loop-carried values, the result) the machine gives, for every control point and
characters ahead: where control goes, how many characters are consumed and what is appended to a buffer.  Two machines are compared
by exploring all pairs of reachable control points over an alphabet with a representative of every class of characters."""
from sa.q import *
from sa.terms import *

END = "<end>"


class Unknown(Exception):
    pass


class Need(Exception):
    pass


PRED = {
    "is_whitespace": str.isspace, "is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric,
    "is_ascii_digit": lambda c: c.isascii() and c.isdigit(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_whitespace": lambda c: c in " \t\n\x0c\r",
    "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_ascii": str.isascii, "is_control": lambda c: ord(c) < 32,
    "is_ascii_punctuation": lambda c: c.isascii() and not c.isalnum() and c.isprintable() and c != " ",
    "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
}


def strip_next(t):
    k = 0
    while t.op == "upd" and t.a[0].endswith("::next"):
        k += 1
        t = t.a[2]
    return t, k


class Machine:
    """E: engine after evaluating the function to r; cursor: the term of the iterator at the start, and path: how it is reached from the
    state object of a loop; values: {term predicate -> python value} for configuration the characters are compared with."""

    def __init__(self, E, r, cursor, values=lambda t: None, final=None):
        self.E, self.r, self.cursor, self.values = E, r, cursor, values
        self.loops = list(E.latch)
        self.final = final
        self.memo = {}
        self.alive = TRUE
        for e in E.events:
            if e.kind == "call" and ("panicking" in e.path or "unwrap_failed" in e.path):
                self.alive = b_and(self.alive, b_not(only_true(e.guard)))
        self.curs = {None: cursor}
        roots = [r] + list(E.latch.values()) + list(E.entry.values())
        for lid in self.loops:
            cs = set()
            for d in roots:
                for a in atoms_of(d):
                    for x in deep_terms(a):
                        if x.op == "next":
                            b, _ = strip_next(x.a[0])
                            y = b
                            while y.op in ("fld", "dfld"):
                                y = y.a[0]
                            if y.op == "rec" and tuple(y.a[:3]) == lid:
                                cs.add(b)
            if len(cs) > 1:
                raise Unknown("several cursors in one loop")
            self.curs[lid] = next(iter(cs), None)
        self.depth = {l: sum(1 for m in self.loops if m != l and self.inside(l, m)) for l in self.loops}

    def inside(self, l, m):
        return any(tuple(x.a[:3]) == m for a in atoms_of(self.E.entry[l]) for x in deep_terms(a) if x.op == "rec") and \
            any(e.loops and l in e.loops and m in e.loops for e in self.E.events)

    def nested(self, l, m):
        k = ("nested", l, m)
        if k not in self.memo:
            self.memo[k] = self.inside(l, m)
        return self.memo[k]

    # ---- evaluation of conditions on the characters ahead
    def index(self, t, lid):
        """Which of the characters ahead t is."""
        c = self.curs[lid]
        if t.op == "elem" and self.same(t.a[0], c):
            return 0
        if t.op == "nth" and self.same(t.a[0], c):
            return t.a[1]
        return None

    def same(self, x, c):
        if x is c:
            return True
        if c is not None and c.op == "rec":
            return x is self.E.strip_rec(c)[0]
        return False

    def ev(self, t, lid, win):
        i = self.index(t, lid)
        if i is not None:
            if i >= len(win):
                if win and win[-1] is END:
                    return None
                raise Need()
            return None if win[i] is END else win[i]
        if t.op == "c":
            v = t.a[1]
            return chr(v) if t.a[0] == "ch" and isinstance(v, int) else v
        v = self.values(t)
        if v is not None:
            return v
        if t.op == "bin" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            x, y = self.ev(t.a[1], lid, win), self.ev(t.a[2], lid, win)
            if x is None or y is None:
                return None
            try:
                return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[t.a[0]]
            except TypeError:
                return None
        if t.op == "un" and t.a[0] == "Not":
            x = self.ev(t.a[1], lid, win)
            return None if x is None else not x
        if t.op == "call":
            n = t.a[0].split("::")[-1]
            if n in PRED and len(t.a) == 2:
                x = self.ev(t.a[1], lid, win)
                return None if x is None else PRED[n](x)
        return None

    def pin(self, dd, lid, win):
        for _ in range(60):
            hit, need = False, False
            for a in atoms_of(dd):
                try:
                    lab = self.label(a, lid, win)
                except Need:
                    need = True
                    continue
                if lab is not None:
                    ls = labels_of(dd, a)
                    dd = restrict(dd, a, lab if any(x == lab and type(x) is type(lab) for x in ls) else OTHER)
                    hit = True
                    break
            if not hit:
                if need:
                    raise Need()
                return dd
        raise Unknown("conditions do not settle")

    def here(self, d, lid):
        """d, given that the loop has been entered"""
        k = (lid, d.id)
        if k not in self.memo:
            self.memo[k] = ite(b_and(only_true(self.E.entry[lid]) if lid else TRUE, self.alive), d, NOTSET)
        return self.memo[k]

    def label(self, a, lid, win):
        if a.op == "a.disc" and a.a[0].op == "next":
            b, k = strip_next(a.a[0].a[0])
            if b is self.curs[lid]:
                if k >= len(win) and not (win and win[-1] is END):
                    raise Need()
                return "Some" if k < len(win) and win[k] is not END else "None"
        elif a.op == "a.val":
            v = self.ev(a.a[0], lid, win)
            return ord(v) if isinstance(v, str) and len(v) == 1 else v
        return None

    def consumed(self, t, lid, win):
        """How far the iterator t is past the control point's cursor."""
        t = self.leaf(self.pin(t, lid, win))
        b, k = strip_next(t)
        if b is not self.curs[lid]:
            raise Unknown("iterator " + show(t, 3)[:80])
        return min(k, sum(1 for c in win if c is not END))

    @staticmethod
    def leaf(d):
        ls = {l for l in leaves(d) if l not in (DEAD, CONT, NOTSET)}
        if len(ls) != 1:
            raise Unknown("value depends on more than the characters: " + show(d, 3)[:120])
        return next(iter(ls))

    # ---- transitions
    def cursor_of(self, lid, obj):
        """The cursor of loop lid in another value of the object it belongs to."""
        path = []
        y = self.curs[lid]
        while y.op in ("fld", "dfld"):
            path.append(y)
            y = y.a[0]
        for f in reversed(path):
            obj = self.E.field(obj, f.a[1]) if f.op == "fld" else mk("dfld", obj, f.a[1], f.a[2])
        return obj

    def owner(self, lid):
        y = self.curs[lid]
        while y.op in ("fld", "dfld"):
            y = y.a[0]
        return y

    def about(self, d, lid):
        return any(x.op == "rec" and tuple(x.a[:3]) == lid for a in atoms_of(d) for x in deep_terms(a)) if lid is not None else True

    def settle(self, lid, win):
        """-> [(target, loops again, conditions, pin)]: every way control can go from here.  Conditions that are not about the characters are
        taken both ways; a way that neither goes on nor answers (a panic) is left out."""
        out, todo = [], [()]
        while todo:
            conds = todo.pop()
            if len(out) + len(todo) > 200:
                raise Unknown("too many conditions")

            def pin(d, conds=conds):
                d = self.here(d, lid)
                for a, l in conds:
                    d = restrict(d, a, l)
                return lift(None, lambda x: DEAD if x is NOTSET else x, self.pin(d, lid, win))

            def split(d):
                at = next(iter(sorted(atoms_of(d), key=lambda x: x.id)))
                ls = set(labels_of(d, at))
                if at.op == "a.val" and any(type(x) is not bool for x in ls):
                    ls.add(OTHER)
                todo.extend(conds + ((at, l),) for l in ls)
            tgt = None
            if lid is not None:
                # loops inside of this turn come before the next one
                inner, opened = [], None
                for j in self.loops:
                    if j != lid and self.nested(j, lid) and self.about(self.E.entry[j], lid):
                        g = pin(only_true(self.E.entry[j]))
                        t = undead_bool(g)
                        if t:
                            inner.append(j)
                        elif t is None and not any(x.op == "rec" and tuple(x.a[:3]) in self.E.latch and tuple(x.a[:3]) != lid and self.nested(tuple(x.a[:3]), lid)
                                                   for a in atoms_of(g) for x in deep_terms(a)):
                            opened = g
                if not inner and opened is not None:
                    split(opened)
                    continue
                if len(inner) > 1:
                    raise Unknown("several loops")
                if inner and self.curs[inner[0]] is not None:
                    out.append((inner[0], False, conds, pin))
                    continue
                l = pin(only_true(self.E.latch[lid]))
                t = undead_bool(l)
                if t is None:
                    split(l)
                    continue
                if t:
                    out.append((lid, True, conds, pin))
                    continue
            opened = None
            best = []
            for j in self.loops:
                if j == lid or (lid is not None and not self.about(self.E.entry[j], lid)):
                    continue
                g = pin(only_true(self.E.entry[j]))
                t = undead_bool(g)
                if t:
                    best.append(j)
                elif t is None and not any(x.op == "rec" and tuple(x.a[:3]) in self.E.latch and tuple(x.a[:3]) != lid and self.later(tuple(x.a[:3]), lid)
                                           for a in atoms_of(g) for x in deep_terms(a)):
                    opened = g
            if not best and opened is not None:
                split(opened)
                continue
            if len(best) > 1:
                raise Unknown("several loops")
            if best and self.curs[best[0]] is None:
                out.append((("enter", best[0]), False, conds, pin))
                continue
            if best:
                out.append((best[0], False, conds, pin))
                continue
            # back to a loop around this one?
            back, opened = None, None
            for m in sorted((m for m in self.loops if lid is not None and m != lid and self.nested(lid, m)), key=lambda m: -self.depth[m]):
                l = pin(only_true(self.E.latch[m]))
                t = undead_bool(l)
                if t:
                    back = m
                    break
                if t is None:
                    opened = l
                    break
            if opened is not None:
                split(opened)
                continue
            if back is not None:
                out.append((back, True, conds, pin))
                continue
            d, op = self.answer(self.r, pin)
            if d is None:
                continue
            if op is not None:
                split(op)
                continue
            out.append((None, False, conds, pin))
        return out

    def answer(self, t, pin):
        """The value t with everything known put in -> (value or None when there is none, a diagram that is still open)"""
        t = pin(t)
        ls = {l for l in leaves(t) if l not in (DEAD, CONT, NOTSET)}
        if not ls:
            return None, None
        if len(ls) > 1:
            return t, t
        t = next(iter(ls))
        if t.op in ("adt", "tup"):
            new, opened = [], None
            for x in t.a:
                if isinstance(x, T):
                    x, o = self.answer(x, pin)
                    if x is None:
                        return None, None
                    opened = opened or o
                new.append(x)
            return mk(t.op, *new), opened
        return t, None

    def later(self, m, lid):
        """Loop m is entered from lid (directly or not)."""
        seen, todo = set(), [m]
        while todo:
            x = todo.pop()
            if lid is None or x == lid:
                return True
            if x in seen:
                continue
            seen.add(x)
            if self.about(self.E.entry[x], lid):
                return True
        return False

    def step(self, lid, bufs, win):
        """-> [(what, next control point / result leaf, bufs', consumed, appended {name: [char]}, conditions)]"""
        out = []
        for tgt, again, conds, pin in self.settle(lid, win):
            if tgt is not None and tgt[0] == "enter":
                out.append(("ret", tgt, bufs, None, pin, conds))
                continue
            if tgt is not None:
                info = self.E.rec_info
                rec = self.owner(tgt)
                obj = info[rec.id][1 if again else 0]
                n = self.consumed(self.cursor_of(tgt, pin(obj)), lid, win)
                nb, app = {}, {}
                for name, (b, how) in bufs.items():
                    new = self.carried(tgt, b, lid, again)
                    if new is None:
                        nb[name], app[name] = (b, how), []
                    else:
                        nr, val = new
                        app[name] = self.appended(pin(how(pin(val))), how(b), lid, win)
                        nb[name] = (nr, how)
                out.append(("go", tgt, nb, n, app, conds))
                continue
            leaf, _ = self.answer(self.r, pin)
            out.append(("ret", leaf, bufs, None, pin, conds))
        return out

    def carried(self, tgt, b, lid, again):
        """The loop-carried version of object b in loop tgt -> (rec, its value on this edge)."""
        if again:
            if b.op == "rec" and tuple(b.a[:3]) == tgt:
                return (b, self.E.rec_info[b.id][1])
            for i in self.E.rec_info.values():
                if lid != tgt and tuple(i[3].a[:3]) == tgt and i[1] is not None and b in set(deep_terms(i[1])) and self.typelike(i[1], b):
                    return i[3], i[1]
            return None
        for i in self.E.rec_info.values():
            t = i[3]
            if tuple(t.a[:3]) == tgt and b in set(deep_terms(i[0])) and self.typelike(i[0], b):
                return t, i[0]
        return None

    @staticmethod
    def typelike(i, b):
        """i is a version of b: b with fields replaced, possibly in several ways"""
        def root(x):
            while x.op in ("with", "upd"):
                x = x.a[0] if x.op == "with" else x.a[2]
            return x
        return any(root(l) is b for l in leaves(i))

    def appended(self, t, base, lid, win):
        t = self.leaf(t)
        if t is base:
            return []
        if t.op == "upd" and t.a[0] == "push":
            return self.appended(t.a[2], base, lid, win) + [self.char(t.a[3], lid, win)]
        if t.op == "fmt" and t.a:
            h = t.a[0]
            h = h.a[2] if h.op == "disp" else h
            return self.appended(h, base, lid, win) + [c for x in t.a[1:] for c in self.text(x, lid, win)]
        raise Unknown("appended text " + show(t, 4)[:100])

    def text(self, x, lid, win):
        x = x.a[2] if x.op == "disp" else x
        if x.op == "c" and isinstance(x.a[1], str):
            return list(x.a[1])
        return [self.char(x, lid, win)]

    def char(self, t, lid, win):
        v = self.ev(t, lid, win)
        if not (isinstance(v, str) and len(v) == 1):
            raise Unknown("a character " + show(t, 3)[:80])
        return v


def cases(ds, limit=200):
    """All assignments of the atoms of the diagrams -> [tuple of leaves]"""
    out, todo = [], [tuple(ds)]
    while todo:
        ds = todo.pop()
        at = next((a for d in ds for a in sorted(atoms_of(d), key=lambda x: x.id)), None)
        if at is None:
            out.append(ds)
            if len(out) > limit:
                raise Unknown("too many cases")
            continue
        labs = set()
        for d in ds:
            labs |= set(labels_of(d, at))
        if at.op == "a.val" and any(type(x) is not bool for x in labs):
            labs.add(OTHER)
        todo.extend(tuple(restrict(d, at, l) for d in ds) for l in labs)
    return out


def deep_terms(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t.id in seen:
        return
    seen.add(t.id)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from deep_terms(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from deep_terms(y, seen)


def undead_bool(d):
    ls = {l for l in leaves(d) if l not in (DEAD, CONT, NOTSET)}
    if ls == {TRUE}:
        return True
    if not ls or ls == {FALSE}:
        return False
    return None


def compare(m, start, spec, q0, alphabet, result, limit=3000, ahead=6):
    """Explore a machine next to a specified transducer.
    start: {buffer name: (object, projection)}; result(leaf, pin, bufs, lid, win) -> ("ret", kind, consumed, {name: [char]}) or
    ("go", bufs, consumed, {name: [char]}) when the whole function starts again;
    spec(q, ahead) -> ("go", q', n, {name: [char]}) or ("ret", kind, n, {name: [char]}), raising Need for more characters ahead.
    -> [(key, ok, message)]"""
    seen, out, todo = set(), {}, [(q0, None, start, ())]

    def report(ok, what, msg=""):
        if what not in out or (not ok and out[what][0]):
            out[what] = (ok, msg)

    def plus(a, b):
        return {k: a.get(k, []) + list(b.get(k, [])) for k in set(a) | set(b)}

    def move(s, bufs, win):
        """One move of the program -> [("go", s', bufs', n, appended, conds) | ("ret", kind, n, appended, conds)]"""
        res = []
        for what, tgt, nb, n, app, conds in m.step(s, bufs, win):
            if what == "go":
                res.append(("go", tgt, nb, n, app, conds))
                continue
            r = result(tgt, app, bufs, s, win)
            res.append(("ret",) + r[1:] + (conds,) if r[0] == "ret" else ("go", None, r[1], r[2], r[3], conds))
        return res

    def meet(win, spec_at, prog_at, cs, depth=0):
        """Advance whichever is behind until both have consumed the same; -> configurations reached"""
        if depth > 60:
            raise Unknown("the program does not get ahead")
        (qk, q, qn, qa), (sk, s, bufs, sn, sa) = spec_at, prog_at
        moved = depth > 0
        if moved and qn == sn and sa is not None and qk == sk and (qk == "ret" or qn > 0 or False):
            return [(spec_at, prog_at, cs)]
        if sk == "go" and (sn <= qn or qk == "ret") and not (sn > qn and qk == "ret"):
            res = []
            for o in move(s, bufs, list(win[sn:])):
                if o[0] == "go":
                    res += meet(win, spec_at, ("go", o[1], o[2], sn + o[3], plus(sa, o[4])), cs + o[5], depth + 1)
                else:
                    res += meet(win, spec_at, ("ret", o[1], None, sn + o[2], plus(sa, o[3])), cs + o[4], depth + 1)
            return res
        if qk == "go" and qn <= sn:
            r = spec(q, list(win[qn:]))
            if r[0] == "any":
                return []
            return meet(win, (r[0], r[1], qn + r[2], plus(qa, r[3])), prog_at, cs, depth + 1)
        return [(spec_at, prog_at, cs)]

    while todo:
        c = todo.pop()
        q, s, bufs, win = c
        k = (q, s, tuple(sorted((n, b.id) for n, (b, _) in bufs.items())), win)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            raise Unknown("too many states")
        try:
            met = meet(win, ("go", q, 0, {}), ("go", s, bufs, 0, {}), ())
        except Need:
            if len(win) >= ahead or (win and win[-1] is END):
                raise Unknown("looks too far ahead")
            for ch in alphabet:
                todo.append((q, s, bufs, win + (ch,)))
            continue
        shown = "".join("$" if x is END else x for x in win).encode("unicode_escape").decode()
        for (qk, q2, qn, qa), (sk, s2, nb, sn, sa), cs in met:
            why = "".join(", %s=%s" % (show(x.a[0], 3)[:60], l) for x, l in cs)
            key = "%s, then %s%s" % (q, shown, why)
            if qk != sk:
                report(False, key, "ends" if sk == "ret" else "does not end")
            elif qk == "ret" and q2 != s2:
                report(False, key, "answers %s, not %s" % (s2, q2))
            elif qn != sn:
                report(False, key, "consumes %d characters, not %d" % (sn, qn))
            elif {k: v for k, v in qa.items() if v} != {k: v for k, v in sa.items() if v}:
                report(False, key, "appends %s, not %s" % (sa, qa))
            else:
                report(True, key)
                if qk == "go":
                    todo.append((q2, s2, nb, win[qn:]))
    return [(k, ok, msg) for k, (ok, msg) in out.items()]


class View:
    """An evaluated function with some decisions already taken: pin(diagram) -> diagram"""

    def __init__(self, E, pin):
        self.field, self.strip_rec, self.state, self.retc = E.field, E.strip_rec, E.state, E.retc
        self.entry = {l: pin(d) for l, d in E.entry.items()}
        self.latch = {l: pin(d) for l, d in E.latch.items() if satisfiable(only_true(self.entry[l]))}
        self.entry = {l: self.entry[l] for l in self.latch}
        self.rec_info = {i: v for i, v in E.rec_info.items() if len(v) > 3 and tuple(v[3].a[:3]) in self.latch}
        self.events = [e for e in E.events if all(l in self.latch for l in e.loops) and satisfiable(only_true(pin(e.guard)))]


class Flagged(Machine):
    """A machine whose control points are a loop together with the values of its flags and small counters, and with which buffers are
    still empty.  Control points: (loop, flags, nonempty buffers) or None for the start."""

    def __init__(self, E, r, cursor, bufs, values=lambda t: None):
        super().__init__(E, r, cursor, values)
        self.bufs = dict(bufs)          # name -> loop-carried value
        self.now, self.full = {}, set()
        self.flags = {}
        todo = [r] + list(E.latch.values()) + list(E.entry.values()) + [E.rec_info[b.id][1] for b in self.bufs.values() if b.op == "rec"]
        seen = set()
        while todo:
            d = todo.pop()
            for a in atoms_of(d):
                for x in deep_terms(a.a[0]) if isinstance(a.a[0], T) else ():
                    if x.op == "rec" and x.id in E.rec_info and x.id not in seen and x not in self.bufs.values():
                        seen.add(x.id)
                        i, s = E.rec_info[x.id][:2]
                        if s is not None and self.const(i) is not None:
                            self.flags[x.id] = x
                            todo.append(s)

    @staticmethod
    def const(t):
        if t.op == "c" and not isinstance(t.a[1], str):
            return t.a[1]
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op == "adt" and len(t.a) == 2:
            return t.a[1]
        return None

    def ev(self, t, lid, win):
        if t.id in self.now:
            return self.now[t.id]
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            x, y = self.ev(t.a[1], lid, win), self.ev(t.a[2], lid, win)
            if isinstance(x, int) and isinstance(y, int):
                return x + y if t.a[0] == "Add" else x - y
        return super().ev(t, lid, win)

    def label(self, a, lid, win):
        t = a.a[0]
        if isinstance(t, T) and t.id in self.now:
            return self.now[t.id]
        if a.op == "a.val" and t.op == "call" and t.a[0].split("::")[-1] in ("len", "is_empty"):
            for n, b in self.bufs.items():
                if t.a[1] is b:
                    z = n not in self.full
                    if t.a[0].endswith("is_empty"):
                        return z
                    return 0 if z else OTHER
        return super().label(a, lid, win)

    def value(self, d, lid, win):
        """the value of a flag in d"""
        t = self.leaf(d)
        v = self.const(t)
        return v if v is not None else self.ev(t, lid, win)

    def carried(self, tgt, b, lid, again):
        if b.op == "start":
            t = self.bufs[b.a[0]]
            return (t, self.E.rec_info[t.id][0]) if t.op == "rec" and tuple(t.a[:3]) == tgt else None
        return super().carried(tgt, b, lid, again)

    def appended(self, t, base, lid, win):
        t = self.leaf(t)
        if base.op == "start" and (t.op == "c" and t.a[1] in ("", 0) or empty_seq(t)):
            return []
        if t.op == "bin" and t.a[0] == "Add":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.op == "call" and x.a[0].endswith("len_utf8"):
                    return self.appended(y, base, lid, win) + ["b"] * len(self.char(x.a[1], lid, win).encode())
                if x.op == "c" and isinstance(x.a[1], int) and x.a[1] > 0 and not (y.op == "c"):
                    return self.appended(y, base, lid, win) + ["b"] * x.a[1]
        return super().appended(t, base, lid, win)

    def step(self, s, bufs, win):
        lid, fl, full = s if s else (None, (), frozenset())
        self.now, self.full = dict(fl), set(full)
        out = []
        for what, tgt, nb, n, app, conds in super().step(lid, bufs, win):
            if what == "go":
                again = tgt == lid
                f = full | {k for k, v in app.items() if v}
                new = []
                for i, x in self.flags.items():
                    if tuple(x.a[:3]) == tgt:
                        d = self.E.rec_info[i][1 if again else 0]
                        d = self.here(d, lid)
                        for a, l in conds:
                            d = restrict(d, a, l)
                        v = self.value(self.pin(d, lid, win), lid, win)
                        if v is None:
                            raise Unknown("a flag " + show(x, 2)[:60])
                        new.append((i, v))
                out.append((what, (tgt, tuple(sorted(new)), frozenset(f)), nb, n, app, conds))
            else:
                out.append((what, tgt, nb, n, app, conds))
        return out
