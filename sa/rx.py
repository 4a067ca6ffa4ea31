"""Regular expressions as automata with priorities: what a leftmost-first engine (Rust's regex crate) matches at the start of a text.

`program([(regex, label), ...])` compiles an ordered list (the first that matches wins, as with an alternation); `differ(a, b)` explores both
in lockstep over an alphabet of character classes and gives a text on which they match differently, or None."""
import re
import re._parser as sre
import re._constants as K
import unicodedata


class Unsupported(Exception):
    pass


def unescape(rx):
    """Rust syntax that Python spells differently."""
    rx = rx.replace("\\z", "\\Z")
    m = re.search(r"(?<!\\)\(\?([a-zA-Z]+)\)", rx)
    if m and rx.count("(", 0, m.start()) == rx.count(")", 0, m.start()):
        rx = rx[:m.start()] + "(?" + m.group(1) + ":" + unescape(rx[m.end():]) + ")"
    return rx


class Prog:
    def __init__(self):
        self.n = []   # ("char", pred, next) ("split", [next...]) ("assert", kind, next) ("match", label)

    def add(self, *x):
        self.n.append(list(x))
        return len(self.n) - 1


def wordc(c):
    return c.isalnum() or c == "_" or unicodedata.category(c) in ("Mn", "Mc", "Me", "Pc")


CATS = {
    K.CATEGORY_DIGIT: lambda c: unicodedata.category(c) == "Nd", K.CATEGORY_NOT_DIGIT: lambda c: unicodedata.category(c) != "Nd",
    K.CATEGORY_SPACE: str.isspace, K.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    K.CATEGORY_WORD: wordc, K.CATEGORY_NOT_WORD: lambda c: not wordc(c),
}


def in_pred(items, icase=False):
    neg = bool(items) and items[0][0] is K.NEGATE
    tests = []
    for op, av in items[1 if neg else 0:]:
        if op is K.LITERAL:
            tests.append(lambda c, v=chr(av): c == v or (icase and c.lower() == v.lower()))
        elif op is K.RANGE:
            tests.append(lambda c, lo=av[0], hi=av[1]: lo <= ord(c) <= hi or (icase and (lo <= ord(c.lower()[0]) <= hi or lo <= ord(c.upper()[0]) <= hi)))
        elif op is K.CATEGORY:
            tests.append(CATS[av])
        else:
            raise Unsupported(str(op))
    return (lambda c: not any(t(c) for t in tests)) if neg else (lambda c: any(t(c) for t in tests))


def compile_seq(p, items, nxt, fl):
    for op, av in reversed(list(items)):
        nxt = compile_one(p, op, av, nxt, fl)
    return nxt


def compile_one(p, op, av, nxt, fl):
    icase = bool(fl & sre.SRE_FLAG_IGNORECASE)
    if op is K.LITERAL:
        v = chr(av)
        return p.add("char", lambda c: c == v or (icase and c.lower() == v.lower()), nxt)
    if op is K.NOT_LITERAL:
        v = chr(av)
        return p.add("char", lambda c: c != v, nxt)
    if op is K.ANY:
        if fl & sre.SRE_FLAG_DOTALL:
            return p.add("char", lambda c: True, nxt)
        return p.add("char", lambda c: c != "\n", nxt)
    if op is K.IN:
        return p.add("char", in_pred(av, icase), nxt)
    if op is K.BRANCH:
        return p.add("split", [compile_seq(p, b, nxt, fl) for b in av[1]])
    if op is K.SUBPATTERN:
        g, on, off, sub = av
        return compile_seq(p, sub, nxt, (fl | on) & ~off)
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, sub = av
        if hi is K.MAXREPEAT:
            loop = p.add("split", [])
            body = compile_seq(p, sub, loop, fl)
            p.n[loop][1] = [body, nxt] if op is K.MAX_REPEAT else [nxt, body]
            out = loop
        else:
            if hi > 200:
                raise Unsupported("large repetition")
            out = nxt
            for _ in range(hi - lo):
                b = compile_seq(p, sub, out, fl)
                out = p.add("split", [b, nxt] if op is K.MAX_REPEAT else [nxt, b])
        for _ in range(lo):
            out = compile_seq(p, sub, out, fl)
        return out
    if op is K.AT:
        if fl & sre.SRE_FLAG_MULTILINE:
            av = {K.AT_BEGINNING: "bol", K.AT_END: "eol"}.get(av, av)
        return p.add("assert", av, nxt)
    raise Unsupported(str(op))


def program(rules, anchored=True):
    p = Prog()
    starts = []
    for rx, label in rules:
        m = p.add("match", label)
        try:
            t = sre.parse(unescape(rx))
        except Exception as e:
            raise Unsupported(str(e))
        starts.append(compile_seq(p, t, m, t.state.flags))
    p.start = p.add("split", starts)
    p.anchored = anchored
    return p


def closure(p, roots, prev, nxt):
    """Thread list (ordered), cut after the first match -> (tuple of char nodes, label or None)"""
    out, seen, label = [], set(), None
    st = list(reversed(roots))
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        n = p.n[i]
        if n[0] == "split":
            st.extend(reversed(n[1]))
        elif n[0] == "assert":
            if holds(n[1], prev, nxt):
                st.append(n[2])
        elif n[0] == "match":
            label = n[1]
            break
        else:
            out.append(i)
    return tuple(out), label


def holds(kind, prev, nxt):
    w = lambda c: c is not None and wordc(c)
    if kind in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
        return prev is None
    if kind is K.AT_END_STRING:
        return nxt is None
    if kind is K.AT_END:
        return nxt is None
    if kind in ("bol", "eol"):
        return (prev if kind == "bol" else nxt) in (None, "\n")
    if kind is K.AT_BOUNDARY:
        return w(prev) != w(nxt)
    if kind is K.AT_NON_BOUNDARY:
        return w(prev) == w(nxt)
    raise Unsupported(str(kind))


def differ(a, b, alphabet, limit=20000):
    """A text where the two programs (as applied at its start) match differently: (text, what a matches, what b matches)"""
    start = ((a.start,), (b.start,), None)
    seen = {}
    todo = [(start, "")]
    while todo:
        new = []
        for (ra, rb, prev), text in todo:
            for c in list(alphabet) + [None]:
                ta, la = closure(a, ra, prev, c)
                tb, lb = closure(b, rb, prev, c)
                if la != lb:
                    return text + (c or ""), la, lb
                if c is None:
                    continue
                na = tuple(a.n[i][2] for i in ta if a.n[i][1](c))
                nb = tuple(b.n[i][2] for i in tb if b.n[i][1](c))
                if not na and not nb:
                    continue
                k = (na, nb, c if True else None)
                if k in seen:
                    continue
                seen[k] = 1
                if len(seen) > limit:
                    raise Unsupported("too many states")
                new.append((k, text + c))
        todo = new
    return None


ALPHABET = ["\n", "\r", " ", "\t", "\u00a0", "#", "'", '"', ",", "(", ")", "^", "+", "-", "*", "/", "&", "%", "<", ">", "=", ":", "$", "!", ".", "_", "0", "7", "9",
            "\u0663", "a", "e", "f", "l", "n", "r", "s", "t", "u", "o", "T", "Z", "m", "é", "\\", "[", "]", "{", ";", "@", "😀", "b", "w"]
