"""C32: the values of cell options are read as they are written."""
from sa.q import *
from sa.terms import *
from sa import mach, rx
from sa.mach import END, Flagged, View
from checks.c20 import last
from checks.c21 import pin_disc
from checks.c10 import live

TITLE = "The values of cell options are read as they are written"
RULE = ("For every kind of token of the options' lexer the loop over the characters ahead, with its flags and counters, is read as a transducer and compared with the specified one on all pairs of reachable states: what is kept, "
        "how many bytes are consumed, where it ends. The rest of the input starts right after what was consumed, spaces are skipped first, the place counts characters. The regular expressions of the options' "
        "token table match the same texts as the specified ones; colors, dates and numbers are made of exactly the token's text.")
LEX = "csvpp::parser::cell_lexer"


def trimmed(E, t, inp):
    """is t the input without leading whitespace?"""
    n = 0
    while t is not inp:
        n += 1
        if n > 8:
            return None
        if t.op == "call" and last(t.a[0]) == "trim_start":
            t = t.a[1]
        elif t.op == "idx" and t.a[1].op == "adt" and t.a[1].a[1] == "RangeFrom":
            s = t.a[1].a[2]
            w = s.op == "bin" and s.a[0] == "Sub" and all(x.op == "call" and last(x.a[0]) == "len" for x in s.a[1:]) and s.a[1].a[1] is t.a[0]
            if not (w and s.a[2].a[1].op == "call" and last(s.a[2].a[1].a[0]) == "trim_start" and s.a[2].a[1].a[1] is t.a[0]):
                return None
            t = t.a[0]
        else:
            return None
    return n > 0


def at(w, i):
    if i >= len(w):
        if w and w[-1] is END:
            return END
        raise mach.Need()
    return w[i]


def run_spec(inside):
    """tokens which go as far as their characters do"""
    def spec(q, w):
        c = at(w, 0)
        f = inside(q, c)
        if f == "any":
            return ("any",)
        if c is not END and f:
            return ("go", "more", 1, {"value": [c], "count": ["b"] * len(c.encode())})
        return ("ret", "error", 0, {}) if q == "start" else ("ret", "ok", 0, {})
    return spec


def quoted_spec(q, w):
    """'...' where '' stands for ' and \\x for x"""
    c = at(w, 0)
    b = lambda *cs: ["b"] * sum(len(x.encode()) for x in cs)
    if q == "start":
        return ("go", "inside", 1, {"count": b(c)}) if c == "'" else ("ret", "error", 0, {})
    if c is END:
        return ("ret", "error", 0, {})
    if q == "escaped":
        return ("go", "inside", 1, {"value": [c], "count": b(c)})
    if c == "\\" or c == "'" and at(w, 1) == "'":
        return ("go", "escaped", 1, {"count": b(c)})
    if c == "'":
        return ("ret", "ok", 1, {"count": b(c)})
    return ("go", q, 1, {"value": [c], "count": b(c)})


def string_spec(q, w):
    if q == "start" and at(w, 0) == "'":
        return quoted_spec(q, w)
    if q in ("inside", "escaped"):
        return quoted_spec(q, w)
    return run_spec(lambda q, c: c is not END and c.isalnum())(q, w)


HEX = "0123456789abcdefABCDEF"


def color_spec(q, w):
    """#? and 3 or 6 hexadecimal digits; what is no color becomes an error, here or when its text is converted"""
    c = at(w, 0)
    k = 0 if q in ("start", "#") else int(q)
    if c is END:
        return ("any",) if k not in (3, 6) else ("ret", "ok", 0, {})
    if q == "start" and c == "#":
        return ("go", "#", 1, {"value": [c], "count": ["b"]})
    if c in HEX:
        return ("any",) if k == 6 else ("go", str(k + 1), 1, {"value": [c], "count": ["b"]})
    if c.isalnum() or c == "#":
        return ("any",)
    return ("ret", "ok", 0, {}) if k in (3, 6) else ("any",)


def number_in(q, c):
    if c is END:
        return False
    if c.isascii() and c.isdigit() or c == "-" and q == "start":
        return True
    return "any" if c in "-." else False


W = [END, " ", "]", ",", ")", "="]
TOKENS = {
    "Identifier": (run_spec(lambda q, c: c is not END and (c.isalnum() or c == "_")), W + ["a", "Z", "7", "_", "é"]),
    "OptionName": (run_spec(lambda q, c: c is not END and c.isalnum()), W + ["a", "Z", "/"]),
    "PositiveNumber": (run_spec(lambda q, c: c is not END and c.isdigit()), W + ["0", "9", "/", "a"]),
    "Number": (run_spec(number_in), W + ["0", "9", "-", ".", "a"]),
    "A1": (run_spec(lambda q, c: c is not END and (c.isalnum() or c in "!:$'")), [END, " ", "]", ",", ")", "a", "Z", "7", "!", ":", "$"]),
    "String": (string_spec, W + ["a", "7", "'", "\\", "é", "_"]),
    "Color": (color_spec, W + ["#", "0", "9", "a", "F", "f", "A", "g", "é", "/"]),
}
# no other character means anything either
TOKENS = {k: (f, a + [c for c in map(chr, range(33, 127)) if c not in a and (not c.isalnum() or c in "mMxX5")]) for k, (f, a) in TOKENS.items()}
LITERALS = {"CloseParenthesis": ")", "EndOptions": "]]", "Equals": "=", "OpenParenthesis": "(", "Slash": "/", "StartCellOptions": "[[", "StartRowOptions": "![["}


def alive(t):
    return [l for l in leaves(t) if l not in (DEAD, CONT, NOTSET)]


def tokens(ctx):
    TOK = next(k for k in ctx.F.adts if k.startswith(LEX) and k.endswith("Token"))
    f = ctx.fn("take_token", self_has="CellLexer")
    E = ctx.engine(opaque=lambda g: g.key.startswith("csvpp") and (g.name in ("unknown_string", "unknown_token") or g.name == "try_match"))
    r = ctx.run(E, f, ["self", "token"])
    self, tok = sym("self", f.locals[1]), sym("token", f.locals[2])
    inp = E.field(self, "input")
    kinds = variants_of(TOK)
    ctx.ob("tokens", set(kinds) == set(TOKENS) | set(LITERALS) | {"Date"}, "there are other kinds of tokens: %s" % sorted(set(kinds) ^ (set(TOKENS) | set(LITERALS) | {"Date"})))
    for k in kinds:
        pin = lambda d, k=k: pin_disc(d, tok, k)
        rk = pin(r)
        fin = E.state.get(self, self)
        if k in LITERALS:
            literal(ctx, E, k, pin, rk, fin, inp, tok)
        elif k in TOKENS:
            looped(ctx, E, k, pin, rk, fin, inp, tok)


def literal(ctx, E, k, pin, r, fin, inp, tok):
    lit = LITERALS[k]
    pre = {a.a[0] for a in atoms_of(r) if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "strip_prefix"}
    good = len(pre) == 1
    if good:
        p = next(iter(pre))
        good = trimmed(E, p.a[1], inp) and p.a[2].op == "c" and (p.a[2].a[1] if isinstance(p.a[2].a[1], str) else chr(p.a[2].a[1])) == lit
    if not ctx.ob("%s: text" % k, good, "a %s is recognised by %s" % (k, [show(x, 4)[:60] for x in pre])):
        return
    have, none = [lambda d, w=w: given(d, (mk("a.disc", p, next(a.a[1] for a in atoms_of(r) if a.op == "a.disc" and a.a[0] is p)), w)) for w in ("Some", "None")]
    ctx.ob("%s: otherwise" % k, all(l.op == "adt" and l.a[1] == "Err" for l in alive(none(r))), "without %s there is a token" % lit)
    oks = alive(have(r))
    for l in oks:
        ok = l.op == "adt" and l.a[1] == "Ok"
        ctx.ob("%s: token" % k, ok, "%s is no token" % lit)
        if ok:
            ctx.ob("%s: kind" % k, E.field(l.a[2], "token") is tok or pin(E.field(l.a[2], "token")) is tok, "the token of %s is of kind %s" % (lit, show(E.field(l.a[2], "token"), 2)[:40]))
            ctx.ob("%s: kept" % k, E.field(l.a[2], "str_match") is mk("c", "s", lit) or E.field(l.a[2], "str_match").a[-1] == lit, "the text of %s is %s" % (lit, show(E.field(l.a[2], "str_match"), 3)[:40]))
    rest = alive(have(pin(E.field(fin, "input"))))
    ctx.ob("%s: rest" % k, rest and all(x is dfld(p, "Some") for x in rest), "after %s the input is %s" % (lit, [show(x, 4)[:60] for x in rest]))
    offset(ctx, E, k, [have(pin(E.field(fin, "cell_offset")))], rest, inp)


def offset(ctx, E, k, offs, rests, inp):
    old = E.field(inp.a[0], "cell_offset")
    """the place moves by the number of the characters which are consumed"""
    for d in offs:
        for l in alive(d):
            todo, parts = [l], []
            while todo:
                x = todo.pop()
                if x.op == "bin" and x.a[0] == "Add":
                    todo += [x.a[1], x.a[2]]
                else:
                    parts.append(x)
            ok = parts.count(old) == 1
            got = []
            for x in parts:
                if x is old:
                    continue
                c = x.a[1] if x.op == "call" and x.a[0] == "count" else None
                if c is not None and c.op == "call" and last(c.a[0]) == "chars":
                    got.append(c.a[1])
                elif x.op == "c":
                    got.append(x.a[1])
                else:
                    ok = False
            ctx.ob("%s: place" % k, ok, "the place after a %s is %s" % (k, [(show(x, 2)[:60],x.op) for x in parts]))
            for rest in rests:
                want, t = [], rest
                while t is not inp and len(want) < 9:
                    if t.op == "idx" and t.a[1].op == "adt" and t.a[1].a[1] == "RangeFrom":
                        want.append((t.a[0], t.a[1].a[2]))
                        t = t.a[0]
                    elif t.op == "dfld" and t.a[0].op == "call" and last(t.a[0].a[0]) == "strip_prefix":
                        v = t.a[0].a[2].a[1]
                        want.append(len(v) if isinstance(v, str) else 1)
                        t = t.a[0].a[1]
                    else:
                        want = None
                        break
                if want is None:
                    continue
                left = list(got)
                for w in want:
                    hit = next((g for g in left if (g == w if not isinstance(w, tuple) else isinstance(g, T) and g.op == "idx" and g.a[0] is w[0] and g.a[1].a[1] == "RangeTo" and g.a[1].a[2] is w[1])), None)
                    if hit is None:
                        ctx.ob("%s: place counted" % k, False, "what is consumed for a %s is not counted by characters" % k)
                    else:
                        left.remove(hit)
                ctx.ob("%s: place is counted" % k, not left, "the place moves by more than was consumed for a %s: %s" % (k, [show(x, 3)[:60] if isinstance(x, T) else x for x in left]))


def looped(ctx, E, k, pin, r, fin, inp, tok):
    spec, alphabet = TOKENS[k]
    V = View(E, pin)
    texts, amounts = set(), set()
    oks = [l for l in alive(r) if l.op == "adt" and l.a[1] == "Ok"]
    good = only_true(okd(r))
    ends = pin(ite(good, E.field(fin, "input"), NOTSET))
    offs = pin(ite(good, E.field(fin, "cell_offset"), NOTSET))
    for l in alive(ends):
        # the alternatives which end with the same rest
        offset(ctx, E, k, [ite(only_true(lift(None, lambda x: TRUE if x is l else x if x in (DEAD, CONT) else FALSE, ends)), offs, NOTSET)], [l], inp)
    for l in oks:
        tk = E.field(l.a[2], "token")
        ctx.ob("%s: kind" % k, tk is tok or all(x is tok or x.op == "adt" and x.a[1] == k for x in leaves(tk)), "the kind of a %s is %s" % (k, show(tk, 3)[:40]))
    try:
        compare(ctx, E, V, k, r, ends, inp, spec, alphabet)
    except mach.Unknown as e:
        ctx.notes.append("%s is not analysed: %s" % (k, str(e)[:200]))


def compare(ctx, E, V, k, r, ends, inp, spec, alphabet):
    def textrec(t):
        return {x for x in subterms_deep(t) if x.op == "rec" and x.id in V.rec_info and V.rec_info[x.id][0] .op == "c" and V.rec_info[x.id][0].a[1] == "" or
                x.op == "rec" and x.id in V.rec_info and empty_seq(V.rec_info[x.id][0])}
    vals = set()
    for l in alive(r):
        if l.op == "adt" and l.a[1] == "Ok":
            vals |= textrec(E.field(l.a[2], "str_match"))
    cnts = set()
    for l in alive(ends):
        if l.op == "idx" and l.a[1].op == "adt" and l.a[1].a[1] == "RangeFrom":
            todo = alive(l.a[1].a[2])
            while todo:
                x = todo.pop()
                if x.op == "bin":
                    todo += [y for z in x.a[1:] for y in alive(z)]
                elif x.op == "call" and last(x.a[0]) == "len":
                    todo += alive(x.a[1])
                elif x.op == "fmt" and x.a:
                    todo += alive(x.a[0].a[2] if x.a[0].op == "disp" else x.a[0])
                elif x.op == "rec" and x.id in V.rec_info:
                    cnts.add(x)
    loops = {tuple(x.a[:3]) for x in vals | cnts}
    out = []
    res = []
    starts = {}
    for i, v in V.rec_info.items():
        t, init = v[3], v[0]
        for l in alive(init):
            y = l
            if y.op == "call" and last(y.a[0]) == "chars":
                starts.setdefault(y, set()).add(tuple(t.a[:3]))
    for y in starts:
        ctx.ob("%s: from the start" % k, bool(trimmed(E, y.a[1], inp)), "a %s is read from %s" % (k, show(y.a[1], 4)[:60]))
    if not starts or len({id(y) for y in starts}) != 1:
        raise mach.Unknown("several beginnings: %d" % len(starts))
    cur = next(iter(starts))

    class Two(Flagged):
        """buffers may live in one of several loops (one per alternative)"""
        def carried(self, tgt, b, lid, again):
            if b.op == "start":
                c = [t for t in (vals if b.a[0] == "value" else cnts) if tuple(t.a[:3]) == tgt]
                c = [t for t in c if b.a[0] == "value" or not isinstance(V.rec_info[t.id][0].a[-1], str) and self.counts(t)] or (c if b.a[0] == "count" and all(t in vals for t in c) else c if b.a[0] == "value" else [])
                if len(c) == 1:
                    self.bufs[b.a[0]] = c[0]
                    return c[0], V.rec_info[c[0].id][0]
                return None
            return super().carried(tgt, b, lid, again)

        def label(self, a, lid, win):
            t = a.a[0]
            if lid is None and a.op == "a.val" and t.op == "call" and last(t.a[0]) == "starts_with" and trimmed(E, t.a[1], inp) and t.a[2].op == "c" and t.a[2].a[1] not in ("",):
                c = t.a[2].a[1]
                c = chr(c) if isinstance(c, int) else c
                if len(c) == 1:
                    return at(win, 0) == c
            if lid is None and t.op in ("next", "elem") and t.a[0].op == "call" and last(t.a[0].a[0]) == "chars" and trimmed(E, t.a[0].a[1], inp):
                c = at(win, 0)
                if t.op == "next" and a.op == "a.disc":
                    return "None" if c is END else "Some"
                if t.op == "elem" and a.op == "a.val" and c is not END:
                    return ord(c)
            return super().label(a, lid, win)

        def step(self, s, bufs, win):
            # a text whose length is what is consumed counts its bytes
            def size(n, y):
                return ["b"] * sum(len(c.encode()) for c in y) if n == "count" else y
            return [x if x[0] != "go" else (*x[:4], {n: size(n, y) for n, y in x[4].items()}, *x[5:]) for x in super().step(s, bufs, win)]

        def appended(self, t, base, lid, win):
            t = self.leaf(t)
            if t.op == "call" and last(t.a[0]) == "len":
                return ["b"] * sum(len(c.encode()) for c in self.appended(t.a[1], base, lid, win))
            return super().appended(t, base, lid, win)

        def counts(self, t):
            return any(x.op == "call" and last(x.a[0]) == "len_utf8" for x in subterms_deep(V.rec_info[t.id][1])) or V.rec_info[t.id][0] is c_int(0) and t in cnts and t.id not in self.flags
    def plain(l):
        return not (l.op == "idx" and l.a[1].op == "adt" and l.a[1].a[1] == "RangeFrom") or all(x.op == "call" and last(x.a[0]) == "len" for x in alive(l.a[1].a[2]))
    bylen = cnts <= vals and all(plain(l) for l in alive(ends))
    if bylen:
        cnts = set()
        spec0, spec = spec, lambda q, w: (lambda o: o[:3] + ({n: x for n, x in o[3].items() if n != "count"},) if len(o) > 3 else o)(spec0(q, w))
    m = Two(V, r, cur, {n: t for n, s in (("value", vals), ("count", cnts)) for t in list(s)[:1]})
    for t in vals | cnts:
        m.flags.pop(t.id, None)

    def result(leaf, pin, bufs, s, win):
        lid = s[0] if s else None
        if leaf.op != "adt" or leaf.a[1] == "Err":
            return ("ret", "error", 0, {})
        v = E.field(leaf.a[2], "str_match")
        value = m.appended(pin(v), bufs["value"][0], lid, win)
        i = m.leaf(pin(ends))
        if not (i.op == "idx" and trimmed(E, i.a[0], inp) and i.a[1].op == "adt" and i.a[1].a[1] == "RangeFrom"):
            raise mach.Unknown("the rest is " + show(i, 4)[:80])
        n = pin(i.a[1].a[2])
        n = m.leaf(n)
        if n.op == "call" and last(n.a[0]) == "len":
            t = m.leaf(pin(n.a[1]))
            count = ["b"] * sum(len(c.encode()) for c in m.appended(t, bufs["value" if bylen else "count"][0], lid, win))
            if not bylen:
                return ("ret", "ok", len_chars(count, win), {"value": value, "count": count})
            return ("ret", "ok", len_chars(count, win), {"value": value})
        else:
            count = m.appended(n, bufs["count"][0], lid, win)
        return ("ret", "ok", len_chars(count, win), {"value": value, "count": count})

    def len_chars(count, win):
        n, k = len(count), 0
        while n > 0 and k < len(win) and win[k] is not END:
            n -= len(win[k].encode())
            k += 1
        return k

    START = {n: x for n, x in {"value": (mk("start", "value"), lambda o: o), "count": (mk("start", "count"), lambda o: o)}.items() if n == "value" or not bylen}
    res = mach.compare(m, START, spec, "start", alphabet, result)
    ctx.floor("states of a %s" % k, len(res), 5)
    for kk, ok, msg in res:
        ctx.ob("%s: %s" % (k, kk), ok, "%s, %s: the lexer %s" % (k, kk, msg))


def subterms_deep(t):
    return list(mach.deep_terms(t))


# --- the table of regular expressions ----------------------------------------------------------------------------------

WS = r"[^\S\r\n]*"
RX = {"Date": r"(?:\d\d\d\d-\d\d-\d\d|\d{1,2}/\d{1,2}/\d{2,4})", "Number": r"-?\d+(?:\.\d+)?", "Identifier": r"\w+", "CloseParenthesis": r"\)"}


def library(ctx):
    """token -> regular expression, and field of the table -> token"""
    out, names = {}, {}
    cl = ctx.fns(lambda g: g.closure and g.key.startswith(LEX + "::token_library"))
    for c in cl:
        E = ctx.engine()
        for v in live(ctx.run(E, c)):
            if v.op == "adt" and v.a[0].endswith("TokenLibrary"):
                for n in fields_of(v.a[0], v.a[1]):
                    x = E.field(v, n)
                    tok, re_ = E.field(x, "0"), E.field(x, "1")
                    while re_.op in ("dfld", "call"):
                        re_ = re_.a[-1] if re_.op == "call" else re_.a[0]
                    if tok.op == "adt" and re_.op == "c":
                        out[tok.a[1]] = re_.a[1]
                        names[n] = tok.a[1]
    return out, names


def regexes(ctx):
    got, names = library(ctx)
    ctx.floor("regular expressions", len(got), 4)
    for k, spec in RX.items():
        if not ctx.ob("%s: expression" % k, k in got, "there is no regular expression of a %s" % k):
            continue
        try:
            d = rx.differ(rx.program([(got[k], k)]), rx.program([("^" + WS + "(?:" + spec + ")", k)]), rx.ALPHABET)
            ctx.ob("%s: matches" % k, d is None, "" if d is None else "at the start of %r there is %s, expected %s" % d)
        except rx.Unsupported as e:
            ctx.notes.append("the expression of %s is not analysed: %s" % (k, e))
    if "String" in got:
        p = rx.program([(got["String"], "String")])
        for text in ("'a'", "''", "'a b' c", " 'it''s'", "'a\\'b'", "'é'"):
            ctx.ob("quoted: %s" % text, matches(p, text), "%s is not taken for a quoted text" % text)
        for text in ("a", "a'b'", "1", '"a"', "'a"):
            ctx.ob("not quoted: %s" % text, not matches(p, text), "%s is taken for a quoted text" % text)
    # the methods which use the table
    f = ctx.fn("try_match", self_has="TokenMatcher")
    E = ctx.engine()
    r = ctx.run(E, f, ["tm", "input"])
    tm, inp = sym("tm", f.locals[1]), sym("input", f.locals[2])
    found = [e for e in E.events if last(e.path) == "find" and not e.path.startswith("core::str")]
    ok = len(found) == 1 and found[0].args[0] is E.field(tm, "1") and found[0].args[1] is inp
    if ctx.ob("match: of the input", ok, "the regular expression is not applied to the input"):
        m = dfld(found[0].ret, "Some")
        for l in alive(r):
            if l.op == "adt" and l.a[1] == "Some":
                t = E.field(l.a[2], "str_match")
                ctx.ob("match: text", t.op == "call" and last(t.a[0]) in ("trim", "trim_start") and t.a[1] is mk_as(m, t), "the text matched is %s" % show(t, 4)[:80])
                ws(ctx, E, prefixes(E, E.field(l.a[2], "len_leading_whitespace")), m)
        hit = lambda w: given(r, (mk("a.disc", found[0].ret, next(a.a[1] for a in atoms_of(r) if a.op == "a.disc" and a.a[0] is found[0].ret)), w))
        ctx.ob("match: if found", all(l.op == "adt" and l.a[1] == w for w in ("Some", "None") for l in alive(hit(w))), "tokens do not depend on the match")
    users(ctx, names)


def mk_as(m, t):
    x = t.a[1]
    return x if x.op == "call" and last(x.a[0]) == "as_str" and x.a[1] is m else None


def ws(ctx, E, t, m):
    """the bytes of the leading whitespace"""
    tw = t.a[1] if t.op == "call" and t.a[0] == "sum" else None
    if tw is None or tw.op != "take_while" or not (tw.a[0].op == "call" and last(tw.a[0].a[0]) == "chars"):
        ctx.notes.append("the leading whitespace of a match is not analysed")
        return
    x = tw.a[0].a[1]
    while x.op == "call" and last(x.a[0]) in ("as_str", "deref"):
        x = x.a[1]
    ctx.ob("match: what is before it", x.op == "sym" or x.op == "dfld" and x.a[0].op == "call" and last(x.a[0].a[0]) == "find", "the leading whitespace of %s" % show(tw.a[0], 4)[:100])
    ctx.ob("match: whitespace", t.a[2].op == "call" and last(t.a[2].a[0]) == "len_utf8" and t.a[2].a[1].op == "elem", "the leading whitespace is %s" % show(t.a[2], 4)[:100])
    cond = tw.a[1]
    for c, want in ((" ", True), ("\t", True), ("\u00a0", True), ("\n", False), ("\r", False), ("a", False), ("[", False)):
        def f(a):
            x = a.a[0]
            if a.op == "a.val" and x.op == "call" and last(x.a[0]) in mach.PRED:
                return mach.PRED[last(x.a[0])](c)
            if a.op == "a.val" and x.op == "elem":
                return ord(c) if ord(c) in labels_of(cond, a) else OTHER
        ctx.ob("match: whitespace %r" % c, truth(assume(cond, f)) is (TRUE if want else FALSE), "%r is %s the whitespace before a token" % (c, "not" if want else "part of"))


def matches(p, text):
    """does program p match at the start of the text?"""
    cur, prev, best = (p.start,), None, None
    for c in list(text) + [None]:
        t, l = rx.closure(p, cur, prev, c)
        best = l or best
        if c is None:
            break
        cur, prev = tuple(p.n[i][2] for i in t if p.n[i][1](c)), c
    return best is not None


USERS = {"maybe_take_date": "Date", "maybe_take_number": "Number", "maybe_take_identifier": "Identifier", "take_date": "Date"}
PLAIN = {"maybe_take_equals": ("Equals", "="), "maybe_take_slash": ("Slash", "/"), "maybe_take_end_options": ("EndOptions", "]]")}


def users(ctx, names):
    for n, k in USERS.items():
        fs = ctx.fns(lambda g: g.name == n and g.key.startswith(LEX) and not g.closure)
        for f in fs[:1]:
            E = ctx.engine(opaque=lambda g: g.key.startswith("csvpp") and g.name in ("unknown_string", "try_match"))
            r = ctx.run(E, f, ["self"])
            self = sym("self", f.locals[1])
            inp, fin = E.field(self, "input"), E.state.get(self, self)
            tms = [e for e in E.events if last(e.path) == "try_match"]
            ok = len(tms) == 1 and names.get(next((x.a[-1] for x in [tms[0].args[0]] if x.op == "fld"), None)) == k and (tms[0].args[1] is inp or trimmed(E, tms[0].args[1], inp))
            if not ctx.ob("%s: looks for a %s" % (n, k), ok, "%s matches %s" % (n, [show(e.args[0], 3)[:60] for e in tms])):
                continue
            m = dfld(tms[0].ret, "Some")
            at_ = next(a for a in atoms_of(r) if a.op == "a.disc" and a.a[0] is tms[0].ret)
            hit = lambda d, w: given(d, (at_, w))
            yes = alive(hit(r, "Some"))
            for l in yes:
                good = l.op == "adt" and l.a[1] in ("Some", "Ok")
                ctx.ob("%s: taken" % n, good, "a %s is not taken" % k)
                if good:
                    tk = E.field(l.a[2], "token")
                    ctx.ob("%s: kind" % n, tk.op == "adt" and tk.a[1] == k or tk is fld(tms[0].args[0], "0"), "the token's kind is %s" % show(tk, 3)[:50])
                    ctx.ob("%s: text" % n, E.field(l.a[2], "str_match") is E.field(m, "str_match"), "the token's text is %s" % show(E.field(l.a[2], "str_match"), 3)[:60])
            ctx.ob("%s: else none" % n, all(l.op == "adt" and l.a[1] in ("None", "Err") for l in alive(hit(r, "None"))), "there is a %s where none is" % k)
            rest = alive(hit(E.field(fin, "input"), "Some"))
            sm, lw, lf = E.field(m, "str_match"), E.field(m, "len_leading_whitespace"), E.field(m, "len_full_match")
            for x in rest:
                amt, y = [], x
                while y is not tms[0].args[1] and y.op == "idx" and y.a[1].op == "adt" and y.a[1].a[1] == "RangeFrom":
                    t = [y.a[1].a[2]]
                    while t:
                        z = t.pop()
                        t += list(z.a[1:3]) if z.op == "bin" and z.a[0] == "Add" else []
                        if not (z.op == "bin" and z.a[0] == "Add"):
                            amt.append("len" if z.op == "call" and last(z.a[0]) == "len" and z.a[1] is sm else "ws" if z is lw else "full" if z is lf else "?")
                    y = y.a[0]
                ctx.ob("%s: rest" % n, y is tms[0].args[1] and sorted(amt) in (["len", "ws"], ["full"]), "after a %s the input is %s" % (k, show(x, 5)[:100]))
            offset(ctx, E, n, [hit(E.field(fin, "cell_offset"), "Some")], rest, inp)
    for n, (k, lit) in PLAIN.items():
        fs = ctx.fns(lambda g: g.name == n and g.key.startswith(LEX) and not g.closure)
        for f in fs[:1]:
            E = ctx.engine()
            r = ctx.run(E, f, ["self"])
            self = sym("self", f.locals[1])
            inp, fin = E.field(self, "input"), E.state.get(self, self)
            pre = {a.a[0]: a for a in atoms_of(r) if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "strip_prefix"}
            p = next(iter(pre), None)
            ok = len(pre) == 1 and trimmed(E, p.a[1], inp) and p.a[2].op == "c" and (p.a[2].a[1] if isinstance(p.a[2].a[1], str) else chr(p.a[2].a[1])) == lit
            if not ctx.ob("%s: text" % n, ok, "a %s is recognised by %s" % (k, [show(x, 4)[:60] for x in pre])):
                continue
            hit = lambda d, w: given(d, (pre[p], w))
            ctx.ob("%s: taken" % n, all(l.op == "adt" and l.a[1] == "Some" for l in alive(hit(r, "Some"))) and all(l.op == "adt" and l.a[1] == "None" for l in alive(hit(r, "None"))),
                   "whether there is a %s is not decided by %s" % (k, lit))
            rest = alive(hit(E.field(fin, "input"), "Some"))
            ctx.ob("%s: rest" % n, bool(rest) and all(x is dfld(p, "Some") for x in rest), "after %s the input is %s" % (lit, [show(x, 4)[:60] for x in rest]))
    for f in ctx.fns(lambda g: g.name == "peek_close_parenthesis" and g.key.startswith(LEX) and not g.closure)[:1]:
        E = ctx.engine(opaque=lambda g: g.key.startswith("csvpp") and g.name == "try_match")
        r = ctx.run(E, f, ["self"])
        self = sym("self", f.locals[1])
        tms = [e for e in E.events if last(e.path) == "try_match"]
        if tms:
            ok = len(tms) == 1 and names.get(tms[0].args[0].a[-1] if tms[0].args[0].op == "fld" else None) == "CloseParenthesis"
            ats = [a for a in atoms_of(r) if a.a[0] is tms[0].ret]
            ok = ok and len(ats) == 1 and truth(restrict(r, ats[0], "Some")) is TRUE and truth(restrict(r, ats[0], "None")) is FALSE
            ctx.ob("end of a list", ok, "the end of a list is seen by %s" % show(r, 4)[:80])
        left = E.field(E.state.get(self, self), "input")
        ctx.ob("end of a list: not taken", left is E.field(self, "input") or bool(trimmed(E, left, E.field(self, "input"))), "looking for the end of a list takes it")


# --- conversions ---------------------------------------------------------------------------------------------------------

def parse_date(text, fmt):
    """chrono's parsing of a date: (y, m, d) or None"""
    i, got = 0, {}
    j = 0
    while j < len(fmt):
        if fmt[j] == "%":
            k = fmt[j + 1]
            j += 2
            w = {"Y": 4, "y": 2, "m": 2, "d": 2}.get(k)
            if w is None:
                return None
            n = i
            while n < len(text) and n - i < w and text[n].isdigit():
                n += 1
            if n == i:
                return None
            got[k] = int(text[i:n])
            i = n
        else:
            if i >= len(text) or text[i] != fmt[j]:
                return None
            i += 1
            j += 1
    if i != len(text):
        return None
    y = got.get("Y")
    if y is None and "y" in got:
        y = 2000 + got["y"] if got["y"] < 70 else 1900 + got["y"]
    m, d = got.get("m"), got.get("d")
    if y is None or m is None or d is None or not 1 <= m <= 12 or not 1 <= d <= 31:
        return None
    return y, m, d


DATES = {"2024-11-12": (2024, 11, 12), "2024-01-02": (2024, 1, 2), "1/2/24": (2024, 1, 2), "11/12/24": (2024, 11, 12), "11/12/2024": (2024, 11, 12), "1/2/2024": (2024, 1, 2), "03/04/1999": (1999, 3, 4),
         "3/4/99": (1999, 3, 4), "2/29/2024": (2024, 2, 29), "12/31/2023": (2023, 12, 31)}


def converted(ctx):
    fs = ctx.fns(lambda g: g.name == "try_from" and "cell_lexer" in str(g.locals[1]) and "date_time" in g.key)
    for f in fs[:1]:
        E = ctx.engine(opaque=lambda g: g.name == "into_parse_error")
        r = ctx.run(E, f, ["tm"])
        tm = sym("tm", f.locals[1])
        text = E.field(tm, "str_match")
        ps = [e for e in E.events if last(e.path) == "parse_from_str"]
        seen = []
        for e in ps:
            ctx.ob("date: of its text", e.args[0] is text, "a date is read from %s" % show(e.args[0], 3)[:60], where(e))
            if "NaiveDate" in e.path and "Time" not in e.path.split("::")[-2]:
                t = e.args[1]
                arr = t.a[0] if t.op == "elem" else mk("arr", t)
                while arr.op in ("ref", "iter"):
                    arr = arr.a[0]
                if arr.op == "arr" and all(x.op == "c" for x in arr.a):
                    seen.append((e, [x.a[1] for x in arr.a]))
        if ctx.ob("date: formats", bool(seen), "the formats of dates are not constant"):
            order = [x for _, fm in seen for x in fm]
            for d, want in DATES.items():
                got = next((g for g in (parse_date(d, fm) for fm in order) if g), None)
                ctx.ob("date %s" % d, got == want, "%s is read as %s" % (d, got))
            for l in live(r):
                if l.op == "adt" and l.a[1] == "Ok":
                    for x in alive(l.a[2]):
                        if x.op == "adt" and x.a[1] == "Date":
                            ctx.ob("date: kept", all(y in {dfld(e.ret, "Ok") for e, _ in seen} for y in alive(x.a[2])), "the date is %s" % show(x.a[2], 3)[:80])
            for e, _ in seen:
                at_ = [a for a in atoms_of(r) if a.op == "a.disc" and a.a[0] is e.ret]
                outs = [l for a in at_ for l in alive(restrict(r, a, "Ok")) if l.op == "adt"]
                ctx.ob("date: is a date", any(l.a[1] == "Ok" and any(x.op == "adt" and x.a[1] == "Date" and any(y is dfld(e.ret, "Ok") for y in alive(x.a[2])) for x in alive(l.a[2])) for l in outs), "dates are not dates", where(e))
    for n, ty in (("into_number", "i64"), ("into_float", "f64")):
        for f in ctx.fns(lambda g: g.name == n and g.key.startswith(LEX) and not g.closure)[:1]:
            E = ctx.engine(opaque=lambda g: g.name == "into_parse_error")
            r = ctx.run(E, f, ["tm"])
            text = E.field(sym("tm", f.locals[1]), "str_match")
            ps = [e for e in E.events if last(e.path) in ("parse", "from_str")]
            ok = len(ps) == 1 and ps[0].args[0] is text
            if ctx.ob("%s: of its text" % n, ok, "a number is not read from its text"):
                for l in live(r):
                    if l.op == "adt" and l.a[1] == "Ok":
                        ctx.ob("%s: kept" % n, all(x is dfld(ps[0].ret, "Ok") for x in alive(l.a[2])), "the number is %s" % show(l.a[2], 3)[:60])
                at_ = [a for a in atoms_of(r) if a.op == "a.disc" and a.a[0] is ps[0].ret]
                ctx.ob("%s: errors" % n, bool(at_) and all(l.op == "adt" and l.a[1] == "Err" for a in at_ for l in alive(restrict(r, a, "Err"))), "what is no number is accepted")
    for f in ctx.fns(lambda g: g.name == "try_from" and g.key.startswith(LEX) and "ast::Ast" in g.key + str(g.self_ty))[:1]:
        E = ctx.engine(opaque=lambda g: g.name in ("into_parse_error", "text_unquote", "token_into"))
        r = ctx.run(E, f, ["tm"])
        tm = sym("tm", f.locals[1])
        text, tk = E.field(tm, "str_match"), E.field(tm, "token")
        for k, want in (("Date", {"DateTime"}), ("A1", {"Reference"}), ("Identifier", {"Reference"}), ("String", {"Text"}), ("Number", {"Float", "Integer"}), ("PositiveNumber", {"Float", "Integer"})):
            nodes = set()
            for l in alive(pin_disc(r, tk, k)):
                if l.op == "adt" and l.a[1] == "Ok":
                    for x in alive(pin_disc(l.a[2], tk, k)):
                        x = E.field(x, "0") if not (x.op == "adt" and x.a[1] in NODES) else x
                        nodes |= set(alive(pin_disc(x, tk, k)))
            nodes = {x for x in nodes if x.op == "adt"}
            got = {x.a[1] for x in nodes}
            # what stands for a value that does not exist does not matter
            ctx.ob("value of a %s" % k, want <= got and got <= want | {"Reference"}, "a %s becomes %s" % (k, sorted(got)))
            for x in nodes:
                if x.a[1] in ("Reference",) and "Reference" in want:
                    ctx.ob("text of a %s" % k, all(y is text for y in alive(x.a[2])), "a %s becomes %s" % (k, show(x, 3)[:60]))
                elif x.a[1] in ("Float", "Integer"):
                    ctx.ob("number of a %s" % k, all(any(z.op == "call" and last(z.a[0]) == "parse" and z.a[1] is text for z in mach.deep_terms(y)) for y in alive(E.field(x, "value"))), "a %s becomes %s" % (k, show(x, 3)[:60]))
        numbers = pin_disc(r, tk, "Number")
        dot = [a for l in alive(numbers) if l.op == "adt" and l.a[1] == "Ok" for a in deep_atoms(l.a[2]) if a.op == "a.val" and a.a[0].op == "call" and last(a.a[0].a[0]) == "contains"]
        dot += [a for a in atoms_of(numbers) if a.op == "a.val" and a.a[0].op == "call" and last(a.a[0].a[0]) == "contains"]
        for a in set(dot):
            for w, k in ((True, "Float"), (False, "Integer")):
                got = set()
                for l in alive(restrict(numbers, a, w)):
                    if l.op == "adt" and l.a[1] == "Ok":
                        v = pin_disc(E.field(l.a[2], "0"), tk, "Number")
                        got |= {x.a[1] for x in alive(restrict(v, a, w)) if x.op == "adt"} - {"Reference"}
                ctx.ob("%s a dot" % ("with" if w else "without"), got == {k} and c_char(a.a[0].a[2], "."), "a number %s a dot is a %s" % ("with" if w else "without", sorted(got)))


NODES = ("DateTime", "Reference", "Text", "Float", "Integer", "Boolean", "FunctionCall", "InfixFunctionCall", "Variable", "Function")


def c_char(t, c):
    return t.op == "c" and (t.a[1] == c or t.a[1] == ord(c))


def deep_atoms(t):
    return {a for x in mach.deep_terms(t) for a in atoms_of(x)}


def check(ctx):
    tokens(ctx)
    regexes(ctx)
    converted(ctx)
