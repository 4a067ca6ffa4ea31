"""C23: no input crashes the compiler."""
import re

from sa.terms import *
from sa.q import *
from sa import locks, rx
from sa.eng import strip_generics
from checks import c32
from checks.c20 import last

DEBUG = False
LIMIT = 400        # blocks of the functions that are looked at together
STEPS = 300_000    # and how much work that may be

TITLE = "No input makes the compiler crash"
RULE = ("Every place of the program where execution can abort - a failed unwrap or expect, a panic, an unimplemented case, an index or a cut of text, an arithmetic overflow, a division - "
        "is an obligation: the conditions on every way to it (functions evaluated symbolically, helpers and callers inlined up to three levels where needed) must exclude it. Excluded by contradictory tests, "
        "variants which are never made, linear bounds on lengths and positions, cuts of text at places between characters only, errors that are the same for every input, "
        "the lexer of cells never getting beyond the end of its cell, and what C11 and C22 establish.")

OPT = "core::option::Option"
STDLIB = ("core::", "std::", "alloc::")
SEQ = ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque")
PARTIAL = {**{n: SEQ for n in ("remove", "swap_remove", "insert", "insert_str", "split_off", "drain", "truncate", "replace_range")},
           **{n: ("core::slice",) for n in ("chunks", "chunks_exact", "rchunks", "windows", "copy_from_slice", "clone_from_slice", "swap", "select_nth_unstable", "rotate_left", "rotate_right")},
           "step_by": STDLIB}
ENVIRONMENT = ("with_native_roots",)   # what the machine has to provide, whatever is compiled


def typed(ty):
    return re.search(r"(?<![\w:])(usize|isize|[iu]64|[iu]128)\b", ty)


def is_panic(p):
    return p.startswith(STDLIB) and ("panicking" in p or "unwrap_failed" in p or "expect_failed" in p)


def name_of(t):
    return last(t.a[0]) if t.op in ("call", "upd") and isinstance(t.a[0], str) else t.op


def callish(t, *names):
    return t.op == "call" and name_of(t) in names


def num(t):
    return t.op == "c" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool)


# ---------------------------------------------------------------- linear arithmetic over lengths
class Bounds:
    """What is known about numbers at a place: `path` holds there."""
    expressions = ()      # what the lexer of cells looks for

    def __init__(self, E, path):
        self.E = E
        self.path = path
        self.vals = {}
        self.facts = []
        for at, lab in path:
            t = at.a[0] if at.op == "a.val" else None
            if t is None:
                continue
            self.vals[t.id] = lab
        for at, lab in path:
            t = at.a[0] if at.op == "a.val" else None
            if t is None:
                continue
            if t.op == "bin" and t.a[0] in ("Lt", "Le") and isinstance(lab, bool):
                a, b = self.lin(t.a[1]), self.lin(t.a[2])
                strict = t.a[0] == "Lt"
                if lab:
                    self.facts.append(self.add(self.add(b, a, -1), {None: -1} if strict else {}))
                else:
                    self.facts.append(self.add(self.add(a, b, -1), {} if strict else {None: -1}))
            elif isinstance(lab, int) and not isinstance(lab, bool):
                d = self.add(self.lin(t), {None: -lab})
                self.facts += [d, self.add({}, d, -1)]
            elif callish(t, "is_empty") and lab is False:
                self.facts.append(self.add(self.length(t.a[1]), {None: -1}))
            elif callish(t, "starts_with", "ends_with") and lab is True:
                n = self.pattern(t.a[2])
                if n:
                    self.facts.append(self.add(self.length(t.a[1]), {None: -n}))
        for at, lab in path:
            # what is counted down to the labels that were excluded
            t = at.a[0] if at.op == "a.val" else None
            if t is not None and lab == ("not", (0,)):
                self.facts.append(self.add(self.lin(t), {None: -1}))

    @staticmethod
    def add(a, b, k=1):
        r = dict(a)
        for x, n in b.items():
            r[x] = r.get(x, 0) + k * n
            if r[x] == 0:
                del r[x]
        return r

    @staticmethod
    def pattern(p):
        """the length in bytes of a pattern"""
        if p.op == "c" and isinstance(p.a[1], str):
            return len(p.a[1].encode())
        if num(p) and p.a[1] < 128:
            return 1
        return 0

    def choose(self, t):
        """t without the alternatives that are not taken here"""
        for at, lab in self.path:
            if t.op != "gate":
                break
            t = given(t, (at, lab))
        return t

    def length(self, x):
        x = self.strip(x)
        if x.op == "c" and isinstance(x.a[1], str):
            return {None: len(x.a[1].encode())}
        if x.op == "idx" and x.a[1].op == "adt":
            r, base = x.a[1], x.a[0]
            k = r.a[1]
            if k == "RangeFrom":
                return self.add(self.length(base), self.lin(r.a[2]), -1)
            if k == "RangeTo":
                return self.lin(r.a[2])
            if k == "Range":
                return self.add(self.lin(r.a[3]), self.lin(r.a[2]), -1)
        if x.op == "dfld" and x.a[1] == "Some" and callish(x.a[0], "strip_prefix", "strip_suffix"):
            n = self.pattern(x.a[0].a[2])
            if n:
                return self.add(self.length(x.a[0].a[1]), {None: -n})
        return {mk("call", "len", x): 1}

    def strip(self, x):
        while callish(x, "as_str", "deref", "as_ref", "clone", "to_string", "to_owned", "as_bytes", "borrow", "as_slice", "to_vec"):
            x = x.a[1]
        if x.op == "gate":
            y = self.choose(x)
            if y is not x:
                return self.strip(y)
        return x

    def lin(self, t):
        t = self.choose(t)
        if num(t):
            return {None: t.a[1]} if t.a[1] else {}
        if t.op == "c" and isinstance(t.a[1], bool):
            return {None: 1} if t.a[1] else {}
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            return self.add(self.lin(t.a[1]), self.lin(t.a[2]), 1 if t.a[0] == "Add" else -1)
        if t.op == "bin" and t.a[0] == "Mul":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if num(x):
                    return self.add({}, self.lin(y), x.a[1])
        if t.op == "cast":
            return self.lin(t.a[1])
        if callish(t, "len"):
            return self.length(t.a[1])
        if t.op == "fld" and t.a[1] in ("x", "y") and t.a[0].op == "fld" and t.a[0].a[1] == {"x": "column", "y": "row"}[t.a[1]]:
            a = t.a[0].a[0]
            if callish(a, "new") and "Address" in a.a[0] and len(a.a) == 3:
                return self.lin(a.a[1 if t.a[1] == "x" else 2])
        return {t: 1}

    # ---- lemmas: things that are never negative
    def about(self, t):
        one = {None: -1}
        out = []
        if callish(t, "min"):
            out += [self.add(self.lin(x), {t: 1}, -1) for x in t.a[1:3]]
        if callish(t, "max") and len(t.a) == 3 and t.a[2].op != "adt":
            out += [self.add({t: 1}, self.lin(x), -1) for x in t.a[1:3]]
        if callish(t, "count") and callish(t.a[1], "chars") and callish(t.a[1].a[1], "trim", "trim_start", "trim_end"):
            # the trimmed text has no more characters than the text
            w = t.a[1].a[1]
            out.append(self.add({subst(t, {w: w.a[1]}): 1}, {t: 1}, -1))
        if callish(t, "saturating_sub"):
            out.append(self.add(self.lin(t.a[1]), {t: 1}, -1))
            out.append(self.add(self.add({t: 1}, self.lin(t.a[1]), -1), self.lin(t.a[2])))
        if callish(t, "len"):
            x = t.a[1]
            if callish(x, "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "trim_left", "trim_right"):
                out.append(self.add(self.length(x.a[1]), {t: 1}, -1))
            if x.op == "dfld" and x.a[1] == "Some" and callish(x.a[0], "strip_prefix", "strip_suffix"):
                out.append(self.add(self.length(x.a[0].a[1]), {t: 1}, -1))
            if callish(x, "collect_str") and x.a[1].op == "take_while":
                out.append(self.add(self.items(x.a[1].a[0]), {t: 1}, -1))
            # the longest of several
            for u in self.known():
                if u.op == "dfld" and u.a[1] == "Some" and callish(u.a[0], "max") and len(u.a[0].a) > 2 and shape(u.a[0].a[2]) == shape(t):
                    out.append(self.add({u: 1}, {t: 1}, -1))
        if t.op == "dfld" and t.a[1] == "Some" and callish(t.a[0], "position", "rposition"):
            out.append(self.add(self.add(self.items(t.a[0].a[1]), one), {t: 1}, -1))
        if t.op == "dfld" and t.a[1] == "Some" and callish(t.a[0], "find", "rfind"):
            n = self.pattern(t.a[0].a[2]) or 1
            out.append(self.add(self.add(self.length(t.a[0].a[1]), {None: -n}), {t: 1}, -1))
        if t.op == "pos":
            out.append(self.add(self.add(self.items(t.a[0]), one), {t: 1}, -1))
        if callish(t, "count"):
            for u in subterms(t):
                if callish(u, "chars"):
                    out.append(self.add(self.length(u.a[1]), {t: 1}, -1))
        if t.op == "elem" and t.a[0].op == "adt" and t.a[0].a[1] == "Range":
            r = t.a[0]
            out.append(self.add({t: 1}, self.lin(r.a[2]), -1))
            out.append(self.add(self.add(self.lin(r.a[3]), one), {t: 1}, -1))
        if t.op == "rec":
            info = self.E.rec_info.get(t.id)
            if info and info[1] is not None and all(self.grows(x, t) for x in leaves(info[1])):
                out.append(self.add({t: 1}, self.lin(info[0]), -1))
        return out

    def grows(self, x, rec):
        d = self.add(self.lin(x), {rec: 1}, -1)
        return all(n >= 0 for n in d.values())

    def items(self, it):
        """how many elements an iteration goes through, at most"""
        it = self.strip(it)
        if it.op in ("take_while", "skip_while", "rev", "take", "skip"):
            return self.items(it.a[0])
        while callish(it, "iter", "into_iter", "iter_mut", "enumerate", "peekable", "rev", "cloned", "copied", "by_ref"):
            it = self.strip(it.a[1])
        if callish(it, "chars", "char_indices", "bytes"):
            return self.length(it.a[1])
        for u in self.known():
            if callish(u, "len") and u.a[1].op == "coll" and u.a[1].a[0] is it:
                return {u: 1}
        return {mk("call", "len", it): 1}

    def known(self):
        seen = []
        for f in self.facts:
            seen += [t for t in f if t is not None]
        return seen + list(getattr(self, "goal_terms", ()))

    def nonneg(self, d, depth=5, tried=()):
        """can d only be 0 or more?"""
        neg = [t for t, n in d.items() if n < 0]
        if not neg:
            return True
        if depth == 0:
            return False
        hints = list(self.facts)
        for t in d:
            if t is not None:
                hints += self.about(t)
                if d[t] > 0 and callish(t, "min"):
                    # the smaller one of the two: either will do
                    rest = {k: v for k, v in d.items() if k is not t}
                    return all(self.nonneg(self.add(rest, self.lin(x), d[t]), depth - 1, tried) for x in t.a[1:3])
                if d[t] < 0 and callish(t, "max") and len(t.a) == 3 and t.a[2].op != "adt":
                    rest = {k: v for k, v in d.items() if k is not t}
                    return all(self.nonneg(self.add(rest, self.lin(x), d[t]), depth - 1, tried) for x in t.a[1:3])
        for h in hints:
            for t in neg:
                # d - h has to lose the negative term
                if t in h and h[t] < 0:
                    k = max(1, d[t] // h[t])
                    r = self.add(d, h, -k)
                    key = tuple(sorted((x.id if x is not None else 0, n) for x, n in r.items()))
                    if key in tried:
                        continue
                    if self.nonneg(r, depth - 1, tried + (key,)):
                        return True
        return False

    def le(self, a, b):
        """a <= b (as linear forms)"""
        d = self.add(b, a, -1)
        self.goal_terms = [t for t in d if t is not None]
        return self.nonneg(d)

    def impossible(self):
        """Do the comparisons on the way here contradict each other?"""
        at_work = {u.a[0] for at, lab in self.path for u in subterms(at) if u.op == "pos"}
        for at, lab in self.path:
            for u in subterms(at):
                if u.op == "elem" and u.a[0].op == "adt" and u.a[0].a[1] == "Range" and callish(u.a[0].a[3], "len"):
                    at_work.add(u.a[0].a[3].a[1])
        for at, lab in self.path:
            # the largest of none, while going through some
            if at.op == "a.disc" and lab == "None" and callish(at.a[0], "max", "min") and at.a[0].a[1] in at_work:
                return True
        for i, f in enumerate(self.facts):
            rest = Bounds.__new__(Bounds)
            rest.E, rest.path, rest.vals = self.E, self.path, self.vals
            rest.facts = self.facts[:i] + self.facts[i + 1:]
            d = self.add({None: -1}, f, -1)
            rest.goal_terms = [t for t in d if t is not None]
            if rest.nonneg(d):
                return True
        return False

    # ---- text is cut between characters only
    def boundary(self, x, k):
        x = self.strip(x)
        kl = self.lin(k)
        k = self.choose(k)
        if not kl or kl == self.length(x):
            return True
        if any(callish(at.a[0], "is_ascii") and lab is True and self.inside(x, self.strip(at.a[0].a[1])) for at, lab in self.path if at.op == "a.val"):
            return self.le(kl, self.length(x))
        if any(callish(at.a[0], "is_char_boundary") and lab is True and self.strip(at.a[0].a[1]) is x and self.lin(at.a[0].a[2]) == kl
               for at, lab in self.path if at.op == "a.val"):
            return True
        for at, lab in self.path:
            if at.op == "a.val" and callish(at.a[0], "starts_with") and lab is True and self.strip(at.a[0].a[1]) is x and \
                    kl == {None: self.pattern(at.a[0].a[2])}:
                return True
        # what a search found
        c = kl.get(None, 0)
        ts = [t for t in kl if t is not None]
        for t in ts:
            if len(ts) == 1 and kl[t] == 1:
                if t.op == "dfld" and t.a[1] == "Some" and callish(t.a[0], "find", "rfind") and self.strip(t.a[0].a[1]) is x and \
                        c in (0, self.pattern(t.a[0].a[2])):
                    return True
                if c == 0 and callish(t, "start", "end") and self.match_of(t.a[1], x):
                    return True
                if c == 0 and t.op == "fld" and t.a[1] == "0" and t.a[0].op in ("elem", "dfld") and \
                        any(callish(u, "char_indices", "match_indices", "rmatch_indices") and self.strip(u.a[1]) is x for u in subterms(t)):
                    return True
                if c == 0 and callish(t, "sum") and self.sum_of_chars(t, x):
                    return True
                if c == 0 and callish(t, "len_utf8") and self.first_char(t.a[1], x):
                    return True
                if c == 0 and callish(t, "len") and self.prefix(t.a[1], x):
                    return True
        # the rest after a suffix of x was taken
        d = self.add(self.length(x), kl, -1)
        if len(d) == 1:
            t, n = next(iter(d.items()))
            if n == 1 and t is not None and callish(t, "len") and self.suffix(t.a[1], x):
                return True
        # after the whitespace before a match: the rest of the match
        if len(ts) == 1 and kl == {ts[0]: 1} and callish(ts[0], "len") and x.op == "idx" and x.a[1].op == "adt" and x.a[1].a[1] == "RangeFrom":
            m, s = self.strip(ts[0].a[1]), x.a[1].a[2]
            if callish(m, "trim") and callish(s, "sum") and self.match_of(self.strip(m.a[1]), self.strip(x.a[0])) and \
                    self.sum_of_chars(s, self.strip(x.a[0])) and s.a[1].op == "take_while" and self.whitespace_before(s.a[1]):
                return True
        return self.consumed(k, x)

    def whitespace_before(self, tw):
        """Does the rest start with what is not whitespace, after the characters were taken?"""
        it, test = tw.a[0], tw.a[1]
        isws = [a for a in atoms_of(test) if a.op == "a.val" and callish(a.a[0], "is_whitespace")]
        if len(isws) != 1:
            return False
        test = given(test, (isws[0], True))
        el = [a for a in atoms_of(test)]
        if len(el) > 1 or any(not (a.op == "a.val" and a.a[0].op == "elem") for a in el):
            return False
        takes = lambda ch: (given(test, (el[0], ord(ch))) if el else test) is TRUE
        return self.leading(takes)

    def leading(self, takes):
        """no expression matches whitespace that is not taken right after what is taken"""
        ws = " \t\n\r\u000b\u000c\u0085\u00a0\u2003\u2028\u3000"
        for text in self.expressions:
            try:
                p = rx.program([(text, "x")])
                todo, seen = [((p.start,), None)], set()
                while todo:
                    cur = todo.pop()
                    if cur in seen:
                        continue
                    seen.add(cur)
                    for c in ws:
                        nxt = tuple(p.n[i][2] for i in rx.closure(p, cur[0], cur[1], c)[0] if p.n[i][1](c))
                        if nxt and not takes(c):
                            return False
                        if nxt:
                            todo.append((nxt, c))
            except rx.Unsupported:
                return False
        return bool(self.expressions)

    def inside(self, x, y):
        """x is y or cut out of it"""
        while x is not y:
            if x.op == "idx":
                x = self.strip(x.a[0])
            elif x.op == "dfld" and x.a[0].op == "call" and len(x.a[0].a) > 1 and isinstance(x.a[0].a[1], T):
                x = self.strip(x.a[0].a[1])
            elif x.op == "call" and name_of(x).startswith("trim"):
                x = self.strip(x.a[1])
            else:
                return False
        return True

    def suffix(self, y, x):
        y = self.strip(y)
        while y is not x:
            if callish(y, "trim_start", "trim_start_matches", "trim_left"):
                y = self.strip(y.a[1])
            elif y.op == "dfld" and y.a[1] == "Some" and callish(y.a[0], "strip_prefix"):
                y = self.strip(y.a[0].a[1])
            elif y.op == "idx" and y.a[1].op == "adt" and y.a[1].a[1] == "RangeFrom":
                y = self.strip(y.a[0])
            else:
                return False
        return True

    def match_of(self, m, x):
        m = m.a[0] if m.op == "dfld" and m.a[1] in ("Some", "Ok") else m
        return callish(m, "find", "find_at", "captures") and any(isinstance(u, T) and self.strip(u) is x for u in m.a[1:])

    def prefix(self, y, x):
        y = self.strip(y)
        while y is not x:
            if callish(y, "trim_end", "trim_end_matches", "trim_right"):
                y = self.strip(y.a[1])
            elif y.op == "dfld" and y.a[1] == "Some" and callish(y.a[0], "strip_suffix"):
                y = self.strip(y.a[0].a[1])
            elif y.op == "idx" and y.a[1].op == "adt" and y.a[1].a[1] == "RangeTo":
                y = self.strip(y.a[0])
            elif callish(y, "collect_str") and y.a[1].op == "take_while" and callish(y.a[1].a[0], "chars"):
                y = self.strip(y.a[1].a[0].a[1])
            elif y.op == "dfld" and self.match_of(y, x):
                return True        # (the patterns of the lexers begin with ^)
            else:
                return False
        return True

    def sum_of_chars(self, t, x):
        """the bytes of the first characters of x"""
        it = t.a[1]
        it = it.a[0] if it.op == "take_while" else it.a[1] if callish(it, "take_while") else it
        b = t.a[2] if len(t.a) > 2 and isinstance(t.a[2], T) else None
        return callish(it, "chars") and b is not None and callish(b, "len_utf8") and b.a[1].op == "elem" and b.a[1].a[0] is it and \
            (self.strip(it.a[1]) is x or self.prefix(it.a[1], x))

    def first_char(self, c, x):
        c = c.a[0] if c.op == "dfld" and c.a[1] == "Some" else c
        return callish(c, "next") and callish(c.a[1], "chars") and self.strip(c.a[1].a[1]) is x

    def consumed(self, k, x):
        """k: what the characters of x that were gone through take up"""
        if callish(k, "len"):
            k = k.a[1]
        extra = None
        if k.op == "bin" and k.a[0] == "Add":
            for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if callish(b, "len_utf8"):
                    k, extra = a, b.a[1]
        if k.op == "fmt" and len(k.a) == 2:
            k, extra = k.a[0].a[2], k.a[1].a[2]
        if k.op == "disp":
            k = k.a[2]
        if k.op != "rec":
            return False
        info = self.E.rec_info.get(k.id)
        if not info or info[1] is None:
            return False
        init = info[0]
        if not (init.op == "c" and init.a[1] in (0, "")):
            return False
        if extra is not None and not self.char_of(extra, x):
            return False
        for st in leaves(info[1]):
            if st.op == "bin" and st.a[0] == "Add":
                a, b = (st.a[1], st.a[2]) if st.a[1] is k else (st.a[2], st.a[1])
                if not (a is k and callish(b, "len_utf8") and self.char_of(b.a[1], x)):
                    return False
            elif st.op == "fmt" and len(st.a) == 2 and st.a[0].op == "disp" and st.a[0].a[2] is k and st.a[1].op == "disp":
                if not self.char_of(st.a[1].a[2], x):
                    return False
            else:
                return False
        return True

    def char_of(self, c, x):
        """is c the character of x that is looked at in this turn of the loop?"""
        if c.op == "dfld" and c.a[1] == "Some":
            c = c.a[0]
        if c.op == "elem":
            it = c.a[0]
        elif callish(c, "next") or c.op == "next":
            it = c.a[-1] if c.op == "next" else c.a[1]
            if it.op == "rec":
                info = self.E.rec_info.get(it.id)
                it = info[0] if info else it
        else:
            return False
        while callish(it, "peekable", "by_ref", "into_iter", "fuse"):
            it = it.a[1]
        return callish(it, "chars") and self.strip(it.a[1]) is x


def shape(t):
    """a term in which every element of a collection is the same"""
    if t.op == "elem" or t.op == "idx" and not (t.a[1].op == "adt"):
        return "each", shape(t.a[0])
    if t.op == "fld":
        return shape(t.a[0]), t.a[1]
    if callish(t, "len"):
        return "len", shape(t.a[1])
    return t.id


# ---------------------------------------------------------------- sites
class Site:
    def __init__(self, fn, e, kind):
        self.fn, self.e, self.kind = fn, e, kind
        self.id = (e.span, e.path, e.fnkey, tuple(a for a in e.args[:1] if a.op == "c"))


class Panics:
    def __init__(self, ctx):
        self.ctx = ctx
        self.F = ctx.F
        self.L = locks.Locks(ctx.F)
        self.runs = {}
        self.fns = [f for f in ctx.F.fns.values() if f.local and not f.derive]
        self.never = {f.key for f in self.fns if f.locals[0] == "!"}
        self.callers = {}
        self.spawned = set()
        roots = []
        for f in self.fns:
            for b in f.blocks:
                t = b[1]
                if t[0] != "call" or b[2]:
                    continue
                direct, clos = self.L.callees(f, t)
                for k in list(direct) + list(clos):
                    self.callers.setdefault(k, set()).add(f.key)
                if self.L.is_spawn(t):
                    roots += list(clos)
        self.spawned = self.L.reachable(roots)
        self.tokens = {}
        self.library = c32.library(ctx)
        Bounds.expressions = tuple(self.library[0].values())
        self.clock = self.times()
        self.offsets = Offsets(self)
        self.constructed()
        self.reads_numbers()

    def times(self):
        """can the text of a date in a cell's options have the colon of a time?"""
        try:
            p = rx.program([(self.library[0]["Date"], "Date")])
            return any(n[0] == "char" and n[1](":") for n in p.n)
        except (KeyError, rx.Unsupported):
            return True

    def constructed(self):
        """the variants that are ever made"""
        self.made = set()
        for f in list(self.fns):
            for b in f.blocks:
                for s in b[0]:
                    if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict):
                        d = s[2][1]
                        self.made.add((d.get("adt"), d.get("variant") or d.get("v")))

    def run(self, f, inl=frozenset()):
        key = (f.key, inl)
        if key not in self.runs:
            E = self.ctx.engine(opaque=lambda h: h.local and not h.closure and h.key not in inl)
            E.overflows = True
            E.top = f.key
            limited(STEPS if inl else None)
            try:
                E.run(f, args=[mk("sym", "a%d" % i, f.locals[i + 1]) for i in range(f.nargs)])
            finally:
                limited(None)
            self.ctx.analysed.add(f.key)
            self.runs[key] = E
        return self.runs[key]

    def sites(self, f, inl=frozenset()):
        E = self.run(f, inl)
        out = []
        for e in E.events:
            k = self.kind(e)
            if k:
                out.append(Site(f, e, k))
        return E, out

    def kind(self, e):
        if e.kind == "assert":
            if e.path.startswith(("BoundsCheck", "DivisionByZero", "RemainderByZero")):
                return "assert"
            return "overflow" if e.path.startswith("Overflow") else None
        if e.kind == "call" and e.path in self.never:
            return "panic"
        if is_panic(e.path):
            g = self.F.fns.get(e.fnkey)
            return "unwrap" if "failed" in e.path else "panic"
        n = last(e.path)
        if n in ("index", "index_mut") or n in ("split_at", "split_at_mut") and e.path.startswith("core::"):
            return "index"
        if n in PARTIAL and e.path.startswith(PARTIAL[n]):
            return "index"
        return None

    # ---- discharging
    def ways(self, g, limit=400):
        """the ways to get to a place; the labels of other ways are excluded explicitly"""
        out = []

        def go(x, p):
            if len(out) > limit:
                return
            if x.op == "gate":
                at, ls, ks, d = x.a
                for l, k in zip(ls, ks):
                    go(k, p + ((at, l),))
                if d is not None:
                    if len(ls) == 1 and isinstance(ls[0], bool):
                        go(d, p + ((at, not ls[0]),))
                    else:
                        go(d, p + ((at, ("not", tuple(ls))),))
            elif x is TRUE:
                out.append(p)
        go(only_true(g), ())
        return out

    def split(self, ts, path, n=0):
        """cases in which the terms have no alternatives left"""
        g = None
        if n < 4:
            for t in ts:
                for u in arithmetic(t):
                    if u.op == "gate":
                        g = u
                        break
                if g is not None:
                    break
        if g is None:
            yield ts, path
            return
        at = g.a[0]
        lab = next((l for a, l in path if a is at), None)
        labs = list(g.a[1]) + ([("not", tuple(g.a[1]))] if g.a[3] is not None else [])
        if len(g.a[1]) == 1 and isinstance(g.a[1][0], bool) and g.a[3] is not None:
            labs = [g.a[1][0], not g.a[1][0]]
        for l in labs:
            if lab is not None and l != lab:
                continue
            yield from self.split([given(t, (at, l)) for t in ts], path if lab is not None else path + ((at, l),), n + 1)

    def excuse(self, E, f, path):
        """Why the error behind an unwrap cannot be caused by an input."""
        for at, lab in path:
            if at.op != "a.disc" or lab not in ("Err", "None"):
                continue
            x = at.a[0]
            if x.op in ("dfld",):
                x = x.a[0]
            n = name_of(x)
            p = x.a[0] if x.op == "call" and isinstance(x.a[0], str) else ""
            if x.op == "call" and not any(u.op in ("sym", "rec", "elem", "fresh") for u in subterms(x)):
                return "the same for every input"
            if n == "position_for_offset" and not self.offsets.bad and x.a[2].op == "fld" and x.a[2].a[1] == Offsets.OFFSET:
                return "the lexer never gets beyond the end of the cell"
            if n in ENVIRONMENT:
                return "provided by the machine"
            if n in ("read", "write", "lock", "into_inner"):
                return "a lock is only poisoned by a crash elsewhere"
            if n in ("try_read", "try_write", "try_lock", "try_unwrap") and f.key not in self.spawned:
                return "no other thread is running then"
        return None

    def invariant(self, E, f, path):
        """What other checks establish"""
        for at, lab in path:
            if at.op != "a.disc":
                continue
            t = at.a[0]
            if lab == "None" and callish(t, "to_str") and self.name_part(t.a[1], path):
                return "a part of a name which is text"
            if lab == "None" and callish(t, "get", "remove") and self.loaded(E, t.a[1], t.a[2], path):
                return "what is required has been loaded (C11)"
            if at.a[1].endswith("VariableValue") and lab != "Absolute" and lab != "Ast":
                return "values relative to a cell are looked up with a cell (C22)"
        return None

    def name_part(self, x, path):
        whole = [self.peel(at.a[0].a[1]) for at, lab in path if at.op == "a.disc" and lab == "Some" and callish(at.a[0], "to_str")]
        x = self.peel(x)
        while callish(x, "file_stem", "file_name", "extension", "parent", "file_prefix"):
            x = self.peel(x.a[1])
            if any(w is x for w in whole):
                return True
        return False

    def peel(self, x):
        while x.op == "dfld" and x.a[1] in ("Some", "Ok") or callish(x, "as_os_str", "as_path", "as_ref", "ok_or", "as_os_string"):
            x = x.a[0] if x.op == "dfld" else x.a[1]
        return x

    def yields(self, k):
        """the tokens that a function of the lexer of cells may give back"""
        if k not in self.tokens:
            self.tokens[k] = None
            f = self.F.fns[k]
            inl = {g.key for g in self.fns if "cell_lexer" in g.key and not g.closure and g.key not in self.never}
            if "cell_lexer" in k and f.nargs == 1:
                E = self.run(f, frozenset(inl))
                out = set()
                st = list(leaves(E.ret))
                while st:
                    l = st.pop()
                    if l.op == "adt" and l.a[1] in ("Some", "Ok"):
                        st += leaves(l.a[2])
                        continue
                    if l.op == "adt" and l.a[1] in ("None", "Err") or l.op == "cont":
                        continue
                    t = E.field(l, "token")
                    t = t if t.op != "gate" else None
                    if t is not None and t.op == "adt":
                        out.add(t.a[1])
                    elif t is not None and t.op == "fld" and t.a[1] == "0" and t.a[0].op == "fld" and t.a[0].a[1] in self.library[1]:
                        out.add(self.library[1][t.a[0].a[1]])
                    else:
                        out = None
                        break
                self.tokens[k] = out
        return self.tokens[k]

    def unreachable(self, path):
        """A variant that is never made"""
        for at, lab in path:
            if at.op == "a.disc" and at.a[0].op == "fld" and at.a[0].a[1] == "token":
                x = at.a[0].a[0]
                while x.op in ("dfld", "fld"):
                    x = x.a[0]
                got = self.yields(x.a[0]) if x.op == "call" and x.a[0] in self.F.fns else None
                if got and (lab not in got if isinstance(lab, str) else all(t in lab[1] for t in got)):
                    return "only %s is read there" % "/".join(sorted(got))
        for at, lab in path:
            if at.op == "a.disc" and at.a[1].endswith("DateTime") and lab != "Date" and not self.clock:
                return "dates of cell options have no time"
            if at.op != "a.disc" or at.a[1] not in self.F.adts or not at.a[1].startswith(("csvpp::", "csvp::")):
                continue
            every = [v[0] for v in self.F.adts[at.a[1]]["variants"]]
            labs = [lab] if isinstance(lab, str) else [v for v in every if v not in lab[1]]
            if not any((at.a[1], v) in self.made for v in labs):
                return "%s is never made" % "/".join(labs)
        return None

    def harmless(self, E, f, s):
        """None if the site can crash; otherwise why it cannot"""
        e = s.e
        g = only_true(e.guard)
        if s.kind == "assert":
            g = b_and(g, b_not(e.args[0]) if e.path.startswith("BoundsCheck") else e.args[0])
        if not satisfiable(g):
            return "unreachable"
        ways = self.ways(g)
        if len(ways) > 400:
            return None
        if s.kind in ("overflow", "index"):
            return self.arithmetic_ok(E, f, s, ways)
        whys = set()
        for p in ways:
            w = self.excuse(E, f, p) or self.unreachable(p) or self.invariant(E, f, p)
            if w is None and Bounds(E, p).impossible():
                w = "excluded by comparisons"
            if w is None:
                return None
            whys.add(w)
        return "; ".join(sorted(whys))

    def arithmetic_ok(self, E, f, s, ways):
        e = s.e
        if s.kind == "overflow":
            o = e.args[0]
            if o.op != "ovf":
                return None
            op, a, b, ty = o.a
            if op in ("Add", "Mul"):
                bad = [t for t in (a, b) if self.huge(E, t)]
                if bad and op == "Add" and (self.stored(E, e, a, b, ways) or self.stored(E, e, b, a, ways)):
                    return "counts things in memory"
                return None if bad else "counts things in memory"
            if op == "Sub":
                for p in ways:
                    for (x, y), q in self.split([a, b], p):
                        B = Bounds(E, q)
                        if not B.le(B.lin(y), B.lin(x)) and not B.impossible():
                            return None
                return "subtracts a part"
            return None
        x, r = prefixes(E, e.args[0]), prefixes(E, e.args[1])
        n = last(e.path)
        if n in PARTIAL and n in ("chunks", "chunks_exact", "rchunks", "windows", "step_by"):
            return "never 0" if num(r) and r.a[1] > 0 else None
        if n == "truncate" and "String" not in e.path:
            return "shortens only"
        of = e.ta[0] if e.ta else ""
        if n in PARTIAL:
            text = "String" in e.path
            for p in ways:
                for (k,), q in self.split([r], p):
                    B = Bounds(E, q)
                    ok = self.in_range(B, x, k, "index", text) if k.op == "adt" or n in ("remove", "swap_remove") and not text else \
                        B.boundary(x, k) and (n != "remove" or B.le(B.add(B.lin(k), {None: 1}), B.length(x))) if text else B.le(B.lin(k), B.length(x))
                    if not ok and not B.impossible():
                        return None
            return "within bounds"
        text = n.startswith("split_at") and "str>" in e.path or of in ("str", "alloc::string::String")
        if of.startswith("serde_json::value::Value"):
            return "a missing member is null"
        if "petgraph" in of:
            return "a node of this graph" if any(u is x for u in subterms(r)) else None
        if "map::" in of:
            for p in ways:
                if not self.has_key(E, f, x, r, p):
                    return None
            return "the key is there"
        for p in ways:
            for (k,), q in self.split([r], p):
                B = Bounds(E, q)
                if not self.in_range(B, x, k, n, text) and not B.impossible():
                    return None
        return "within bounds"

    def stored(self, E, e, x, n, ways):
        """x + n where x counts elements that are kept, and n more have just been stored."""
        if x.op != "rec" or x.id not in E.rec_info or E.rec_info[x.id][0] is not c_int(0) or E.rec_info[x.id][1] is None:
            return False

        def counted(t, base, depth=0):
            for l in leaves(t):
                if l in (DEAD, CONT) or l is base:
                    continue
                if l.op == "rec" and l.id in E.rec_info and E.rec_info[l.id][1] is not None and depth < 3:
                    if not (counted(E.rec_info[l.id][0], base, depth) and counted(E.rec_info[l.id][1], l, depth + 1)):
                        return False
                    continue
                if l.op == "bin" and l.a[0] == "Add" and base in l.a[1:]:
                    o = l.a[2] if l.a[1] is base else l.a[1]
                    if num(o) and o.a[1] == 1 or all(z is n or any(z is y for y in leaves(n)) for z in leaves(o)):
                        continue
                return False
            return True
        if not counted(E.rec_info[x.id][1], x):
            return False

        def times(c):
            r = c.a[0] if c.op in ("coll", "iter") else c
            return r.a[3] if r.op == "adt" and last(r.a[0]) == "Range" and num(r.a[2]) and r.a[2].a[1] == 0 else None
        same = lambda t, p: Bounds(E, p).choose(t) is Bounds(E, p).choose(n)
        for p in ways:
            ok = False
            for i in E.events:
                if i.seq >= e.seq or not i.loops or last(strip_generics(i.path)) not in ("push", "extend") or not ("Vec" in i.path or i.path in ("push", "extend")):
                    continue
                if i.loops == e.loops and last(strip_generics(i.path)) == "extend" and len(i.args) == 2:
                    t = times(i.args[1])
                    ok = ok or t is not None and same(t, p) and not satisfiable(b_and(e.guard, b_not(i.guard)))
                elif i.loops[:-1] == e.loops and last(strip_generics(i.path)) == "push" and i.loops[-1] in E.latch:
                    lid = i.loops[-1]
                    for c in E.rec_info.values():
                        if c[3].op == "rec" and tuple(c[3].a[:3]) == tuple(lid) and c[1] is not None and c[1].op == "upd" and last(c[1].a[0]) == "next" and times(c[0]) is not None:
                            turn = lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" and a.a[0].a[0] is c[3] else None
                            g, more = (assume(t, turn) for t in (i.guard, E.latch[lid]))
                            ok = ok or same(times(c[0]), p) and not satisfiable(b_and(e.guard, b_not(g))) and FALSE not in leaves(more)
            if not ok:
                return False
        return bool(ways)

    def has_key(self, E, f, x, r, path):
        for at, lab in path:
            t = at.a[0]
            if at.op == "a.val" and callish(t, "contains_key") and lab is True and t.a[1] is x and t.a[2] is r:
                return True
        if any(callish(u, "keys") and u.a[1] is x for u in subterms(r)):
            return True
        return self.loaded(E, x, r, path)

    def loaded(self, E, x, r, path):
        """Every module that is required has been loaded, unless there were failures (C11)."""
        if not any(u.op == "fld" and u.a[1] == "required_modules" for u in subterms(r)):
            return False
        return any(at.op == "a.val" and (callish(at.a[0], "has_failures") and lab is False or
                   callish(at.a[0], "is_empty") and lab is True and any(u.op == "fld" and u.a[1] == "failed" for u in subterms(at.a[0])))
                   for at, lab in path)

    def in_range(self, B, x, k, n, text):
        size = B.length(x)
        if k.op == "adt" and k.a[0].startswith("core::ops::range"):
            v = k.a[1]
            if v == "RangeFull":
                return True
            lo, hi = (k.a[2], None) if v == "RangeFrom" else (None, k.a[2]) if v.startswith("RangeTo") else (k.a[2], k.a[3])
            one = {None: 1} if v.endswith("Inclusive") else {}
            if text:
                ok = (lo is None or B.boundary(x, lo)) and (hi is None or (not one and B.boundary(x, hi)))
                return ok and (lo is None or hi is None or B.le(B.lin(lo), B.lin(hi)))
            top = B.add(B.lin(hi), one) if hi is not None else size
            return B.le(top, size) and (lo is None or B.le(B.lin(lo), top))
        if text or n.startswith("split_at"):
            return B.boundary(x, k) if text else B.le(B.lin(k), size)
        return B.le(B.add(B.lin(k), {None: 1}), size)

    def reads_numbers(self):
        """functions which give back a number that is written in the input, and the fields where such numbers are kept"""
        self.numbers, self.kept, self.given = set(), set(), set()

        again = True
        while again:
            again = False
            for f in self.fns:
                E = self.run(f)
                if f.key not in self.numbers and typed(f.locals[0]):
                    if any(e.kind == "call" and (e.path in self.numbers or self.reader(e.path) and typed(e.rty or "")) for e in E.events):
                        self.numbers.add(f.key)
                        again = True
                for e in E.events:
                    if e.kind == "call" and e.path in self.F.fns and self.F.fns[e.path].local:
                        for i, a in enumerate(e.args):
                            if isinstance(a, T) and (e.path, i) not in self.given and i < self.F.fns[e.path].nargs and \
                                    typed(self.F.fns[e.path].locals[i + 1]) and self.huge(E, a):
                                self.given.add((e.path, i))
                                again = True
                    if e.kind == "agg":
                        for (n, ty), a in zip(self.fields(e.path), e.args):
                            if isinstance(a, T) and typed(ty) and (e.path, n) not in self.kept and self.huge(E, a):
                                self.kept.add((e.path, n))
                                again = True

    def reader(self, p):
        return last(p) in ("parse", "from_str", "from_str_radix") and (p.startswith(STDLIB) or "::" not in p)

    def fields(self, path):
        adt, _, var = path.rpartition("::")
        a = self.F.adts.get(adt)
        if a is None:
            return []
        for v in a["variants"]:
            if v[0] == var:
                return [(x[0], x[1]) for x in v[2]]
        return []

    def huge(self, E, t):
        """may the number be one that was written in the input?"""
        st, seen = [t], set()
        while st:
            u = st.pop()
            if u.id in seen:
                continue
            seen.add(u.id)
            if callish(u, "len", "count", "position", "find", "rfind", "len_utf8", "sum") and not u.a[0].startswith("csvpp") or u.op == "pos":
                if not (callish(u, "sum") and len(u.a) > 2):
                    continue
                st.append(u.a[2])
                continue
            if u.op == "call" and isinstance(u.a[0], str) and (self.reader(u.a[0]) or u.a[0] in self.numbers):
                tys = [x.a[1] for x in u.a[1:] if isinstance(x, T) and x.op == "k" and x.a[0] == "ty"]
                if u.a[0] in self.numbers or u.a[0].startswith("core::str") and not tys or any(typed(ty) for ty in tys):
                    return True
            if u.op == "sym" and re.fullmatch(r"a\d+", str(u.a[0])) and (E.top, int(u.a[0][1:])) in self.given:
                return True
            if u.op == "fld" and not u.a[1].isdigit() and any(n == u.a[1] for _, n in self.kept):
                return True
            if u.op == "dfld" and any(p.endswith("::" + u.a[1]) and n == u.a[2] for p, n in self.kept if not p.startswith(STDLIB)):
                return True
            for a in u.a:
                st += [a] if isinstance(a, T) else [b for b in a if isinstance(b, T)] if isinstance(a, tuple) else []
        return False

    def concerned(self, s):
        """functions of this program that the site depends on"""
        out = set()
        st = list(s.e.args) + [at for p in self.ways(s.e.guard) for at, _ in p]
        for t in st:
            for u in subterms(t):
                if u.op in ("call", "upd") and isinstance(u.a[0], str) and u.a[0] in self.F.fns and self.F.fns[u.a[0]].local:
                    out.add(u.a[0])
        return out

    def concerns(self, f, keys):
        """does the function call one of these?"""
        return any(f.key == k or f.key in self.callers_of(self.F.fns[k]) for k in keys)

    def discharge(self, f, s):
        try:
            return self.reached(f, s)
        except Budget:
            self.failed = (f.key, "the paths to it are too many")
            return None

    def reached(self, f, s, inl=frozenset(), depth=0):
        E = self.run(f, inl)
        why = self.harmless(E, f, s)
        if why:
            return why
        wide = inl
        for _ in range(3):
            more = {k for k in self.concerned(s) if k not in wide and len(self.F.fns[k].blocks) < 60 and k != f.key}
            if not more or sum(len(self.F.fns[k].blocks) for k in wide | more | {f.key}) > LIMIT:
                break
            wide = wide | more
            E, ss = self.sites(f, wide)
            mine = [x for x in ss if x.id == s.id and x.e.stack[-1] == s.e.stack[-1]]
            if not mine:
                break
            whys = [self.harmless(E, f, x) for x in mine]
            if all(whys):
                return "; ".join(sorted(set(whys)))
            s = next(x for x, w in zip(mine, whys) if not w)
        if depth >= 3:
            return None
        up = sorted(self.callers_of(f))
        if not up:
            return None
        whys = set()
        for k in up:
            g = self.F.fns[k]
            inl2 = inl | {f.key}
            if sum(len(self.F.fns[k].blocks) for k in inl2 | {g.key}) > LIMIT:
                self.failed = (k, "too large")
                return None
            E2, ss = self.sites(g, inl2)
            mine = [x for x in ss if x.id == s.id and f.key in x.e.stack]
            if not mine:
                self.failed = (k, "not reached")
                return None
            for x in mine:
                w = self.reached(g, x, inl2, depth + 1)
                if not w:
                    if self.failed is None:
                        self.failed = (k, x)
                    return None
                whys.add(w)
        return "; ".join(sorted(whys))

    def callers_of(self, f):
        out = set()
        for k in self.callers.get(f.key, ()):
            while "::{closure" in k and k.rsplit("::{closure", 1)[0] in self.F.fns:
                k = k.rsplit("::{closure", 1)[0]
            if k != f.key and k in self.F.fns:
                out.add(k)
        return out


class Offsets:
    """The position a cell's lexer has got to is never beyond the end of the cell: every step moves
    it by no more characters than are removed from what is left to read."""
    LEXER, OFFSET, INPUT = "CellLexer", "cell_offset", "input"

    def __init__(self, P):
        self.P = P
        self.B = Bounds(None, ())
        self.bad = []
        self.good = []
        open_, done = set(), set()
        work = [f for f in P.fns if any(self.LEXER in f.locals[i + 1] for i in range(f.nargs)) or self.LEXER in f.locals[0]]
        work += [f for f in P.fns if f not in work]
        for rounds in range(4):
            inl = frozenset(open_)
            again = set()
            for f in work:
                if f.key in done and not (open_ and self.P.concerns(f, open_)):
                    continue
                done.add(f.key)
                E = P.run(f, inl if self.P.concerns(f, open_) else frozenset())
                for why in self.steps(E, f):
                    if why and f.nargs > 1 and f.key not in open_ and rounds < 3 and P.callers_of(f):
                        again.add(f.key)
                    elif why:
                        self.bad.append((f, why))
                    else:
                        self.good.append(f)
            open_ |= again
            self.bad = [b for b in self.bad if b[0].key not in open_]
            if not again:
                break
            work = [f for f in P.fns if self.P.concerns(f, again)]
        self.asked()

    def asked(self):
        """Positions are only asked for where a lexer has been."""
        F = self.P.F
        kinds = set()
        for f in self.P.fns:
            for e in self.P.run(f).events:
                if e.kind == "call" and last(e.path) == "position_for_offset" and "field::Field" in e.path:
                    a, o = e.args[0], e.args[1]
                    if a.op == "fld" and o.op == "fld" and a.a[0] is o.a[0] and o.a[1] == self.OFFSET and f.nargs:
                        kinds.add((re.sub(r"^&(mut )?", "", f.locals[1]), a.a[1]))
        self.kinds = kinds
        for f in self.P.fns:
            E = self.P.run(f)
            mine = [e for e in E.events if e.kind == "agg" and any(e.path.startswith(k + "::") or e.path == k for k, _ in kinds) or
                    e.kind == "agg" and e.path.rpartition("::")[0].endswith("::" + self.LEXER)]
            if mine:
                E = self.P.run(f, frozenset(k for e in mine for a in e.args for u in subterms(a) if u.op == "call"
                                            for k in (u.a[0],) if k in F.fns and F.fns[k].local))
            for e in E.events:
                if e.kind != "agg" or not any(e.path == m.path for m in mine):
                    continue
                fs = dict(zip([n for n, _ in self.P.fields(e.path)], e.args))
                o = fs.get(self.OFFSET)
                if e.path.rpartition("::")[0].endswith("::" + self.LEXER):
                    i, ok = fs.get(self.INPUT), False
                    if o is not None and num(o) and o.a[1] == 0:
                        ok = self.B.strip(i) is self.B.strip(fld(fs["field"], "value"))
                else:
                    name = next(n for k, n in kinds if e.path.startswith(k))
                    fi = fs.get(name)
                    fi = self.B.strip(fi) if fi is not None else None
                    ok = o is not None and fi is not None and callish(o, "saturating_sub") and num(o.a[2]) and o.a[2].a[1] >= 1 and \
                        o.a[1].op == "fld" and o.a[1].a[1] == self.OFFSET and fi.op == "fld" and fi.a[1] == "field" and self.root(fi) is self.root(o.a[1])
                (self.good if ok else self.bad).append(f if ok else (f, "%s is made for %s" % (last(e.path), show(o, 4)[:100])))

    def root(self, t):
        while t.op in ("fld", "with", "upd"):
            t = t.a[0] if t.op != "upd" else t.a[2] if t.op == "upd" and isinstance(t.a[1], int) else t.a[1]
        return t

    def steps(self, E, f):
        """for each state that the lexer may be left in: None, or what is wrong with it"""
        for k, v in E.state.items():
            for t in {x for x in subterms(v) if x.op == "with" and x.a[1] in (self.OFFSET, self.INPUT)}:
                if any(t is x.a[0] for x in subterms(v) if x.op == "with"):
                    continue      # an intermediate step
                for path, leaf in paths(t):
                    path = tuple(path)
                    why = self.step(E, leaf, path)
                    if why:
                        # on the ways on which it is left so
                        ways = [tuple(p) + path for p, l in paths(v) if any(u is t for u in subterms(l))]
                        why = next((w for w in (self.step(E, leaf, p) for p in ways) if w), None)
                    yield why

    def step(self, E, t, path):
        self.B = Bounds(E, tuple((a, l) for a, l in path if l is not None))
        base, off, inp = t, None, None
        while base.op == "with":
            if base.a[1] == self.OFFSET and off is None:
                off = base.a[2]
            if base.a[1] == self.INPUT and inp is None:
                inp = base.a[2]
            base = base.a[0]
        o0, i0 = fld(base, self.OFFSET), fld(base, self.INPUT)
        d = self.B.add(self.lin(o0), self.chars(i0))
        d = self.B.add(self.B.add(d, self.lin(off if off is not None else o0), -1), self.chars(inp if inp is not None else i0), -1)
        if all(n >= 0 for n in d.values()):
            return None
        return "the position is moved on by more than what was read (%s)" % show(t, 5)[:150]

    def lin(self, t):
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            return self.B.add(self.lin(t.a[1]), self.lin(t.a[2]), 1 if t.a[0] == "Add" else -1)
        if callish(t, "count") and callish(t.a[1], "chars"):
            return self.chars(t.a[1].a[1])
        if callish(t, "len") and self.B.strip(t.a[1]).op == "c":
            return {None: len(self.B.strip(t.a[1]).a[1].encode())}
        return self.B.lin(t)

    def chars(self, x):
        x = self.B.strip(x)
        if x.op == "c" and isinstance(x.a[1], str):
            return {None: len(x.a[1])} if x.a[1] else {}
        if x.op == "idx" and x.a[1].op == "adt" and x.a[1].a[1] == "RangeFrom":
            to = mk("idx", x.a[0], mk("adt", "core::ops::range::RangeTo", "RangeTo", x.a[1].a[2]))
            return self.B.add(self.chars(x.a[0]), self.chars(to), -1)
        if x.op == "dfld" and x.a[1] == "Some" and callish(x.a[0], "strip_prefix"):
            p = x.a[0].a[2]
            if p.op == "c":
                return self.B.add(self.chars(x.a[0].a[1]), {None: len(p.a[1]) if isinstance(p.a[1], str) else 1}, -1)
        if x.op == "idx" and x.a[1].op == "adt" and x.a[1].a[1] == "RangeTo" and num(x.a[1].a[2]):
            for at, lab in self.B.path:
                if at.op == "a.val" and lab is True and callish(at.a[0], "starts_with") and self.B.strip(at.a[0].a[1]) is self.B.strip(x.a[0]) and \
                        self.B.pattern(at.a[0].a[2]) == x.a[1].a[2].a[1]:
                    p = at.a[0].a[2].a[1]
                    return {None: len(p) if isinstance(p, str) else 1}
        if callish(x, "trim_start"):
            return self.B.add(self.chars(x.a[1]), {mk("call", "trimmed", x.a[1]): 1}, -1)
        return {mk("call", "characters", x): 1}


def arithmetic(t):
    """the terms a number is computed from"""
    st = [t]
    while st:
        x = st.pop()
        yield x
        if x.op in ("bin", "cast", "adt"):
            st += [a for a in x.a if isinstance(a, T)]
        elif callish(x, "len", "min", "max", "saturating_sub"):
            st += [a for a in x.a if isinstance(a, T)]


def label(f, s):
    """what identifies the place, whatever its line is"""
    n = "::".join(re.sub(r"::<[^<>]*>", "", f.key).split("::")[-2:])[-60:]
    a = s.e.args[0] if s.e.args else None
    if s.kind == "overflow":
        return "%s: overflow of %s" % (n, a.a[0] if a is not None and a.op == "ovf" else "?")
    if a is not None and a.op == "c" and isinstance(a.a[1], str):
        return "%s: %s %r" % (n, s.kind, a.a[1])
    return "%s: %s" % (n, s.kind)


def check(ctx):
    P = Panics(ctx)
    within, lines = set(), set()       # closures which are looked at where they are made
    for f in P.fns:
        for e in P.run(f).events:
            if e.fnkey != f.key:
                within.add(e.fnkey)
                lines.add(e.span)
    for f, why in P.offsets.bad:
        ctx.ob("%s: position" % f.key.split("::")[-1], False, why, f.span)
    for f in P.offsets.good:
        ctx.ob("%s: position" % f.key.split("::")[-1], True, "")
    for f in sorted(P.fns, key=lambda f: f.key):
        if f.key in P.never or f.closure and f.key in within:
            continue
        E, ss = P.sites(f)
        for s in ss:
            if f.closure and s.e.span in lines:
                continue
            P.failed = None
            why = P.discharge(f, s)
            if DEBUG and not why and P.failed:
                k, x = P.failed
                print("   ", k[-70:], x if isinstance(x, str) else [show(a, 7)[:200] for a in x.e.args][:2])
            ctx.count("places which could crash")
            ctx.ob(label(f, s), bool(why), "%s of %s" % (last(s.e.path), [show(a, 4)[:70] for a in s.e.args][:2]), s.e.span)
            if why:
                ctx.notes.append("%s %s: %s" % (f.key[-50:], s.kind, why))
    ctx.floor("places which could crash", ctx.counts.get("places which could crash", 0), 40)
