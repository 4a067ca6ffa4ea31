"""C21: splitting formulas and the code section into tokens."""
from sa.q import *
from sa.terms import *
from sa import rx
from sa.check import Missing
from checks.c20 import last

TITLE = "Formulas are split into exactly the tokens that are written"
RULE = ("The ordered table of regular expressions is read out of the lexer (initialiser of the token library, array of matchers) and its leftmost-first automaton "
        "compared with the specified grammar's over all texts (product exploration over character classes); every value carried round the lexer's loop (rest of the "
        "input, tokens, counters), its exits and the conversion of literals are checked on the value-flow terms, per kind of token.")

WS = r"[^\S\r\n]*"
SPEC = [("Newline", r"\n"), ("Comment", r"#[^\n]*"), ("DoubleQuotedString", r'"(?:""|[^"])*"'), ("FunctionDefinition", r"fn\s+"), ("UseModule", r"use\b"), ("VarAssign", ":="),
        ("Comma", ","), ("CloseParen", r"\)"), ("OpenParen", r"\("), ("Operator", r"<=|>=|<>|[\^+\-*/&%<>=]"), ("Float", r"\d+\.\d*"), ("Integer", r"\d+"),
        ("Boolean", r"(?:true|false)\b"), ("Reference", r"[$!\w:]+[$!\w:.]?")]


def new_fn(ctx, part):
    fs = ctx.fns(lambda g: g.name == "new" and not g.closure and part in g.key)
    if len(fs) != 1:
        raise Missing("the constructor of " + part)
    return fs[0]


def table(ctx, arr):
    """[(regex, token)] of an array of matchers taken from the lazily built library"""
    out, libs = [], {}
    for m in arr.a:
        names = []
        while m.op in ("fld", "ref"):
            if m.op == "fld":
                names.append(m.a[1])
            m = m.a[0]
        clo = next((x for x in m.a if isinstance(x, T) and x.op == "clo"), None)
        if clo is None:
            raise Missing("the initialiser of the token library (%s)" % show(m, 2)[:80])
        k = clo.a[0]
        if k not in libs:
            E = ctx.engine()
            libs[k] = (E, [l for l in leaves(ctx.run(E, ctx.F.fns[k])) if l not in (DEAD, CONT)])
        E, ls = libs[k]
        if len(ls) != 1:
            raise Missing("the token library")
        v = ls[0]
        for n in reversed(names):
            v = E.field(v, n)
        tok, re_ = E.field(v, "0"), E.field(v, "1")
        while re_.op in ("dfld", "call"):
            re_ = re_.a[-1] if re_.op == "call" else re_.a[0]
        if tok.op != "adt" or re_.op != "c":
            raise Missing("the regular expression of %s" % names)
        out.append((re_.a[1], tok.a[1]))
    return out


def compare(ctx, got, spec, alphabet=None):
    try:
        a = rx.program([(r, t) for r, t in got])
        b = rx.program([("^" + WS + "(?:" + r + ")", t) for t, r in spec])
        d = rx.differ(a, b, alphabet or rx.ALPHABET)
    except rx.Unsupported as e:
        raise Missing("a regular expression that is understood: %s" % e)
    ctx.ob("tokens of texts", d is None, "" if d is None else "at the start of %r: %s, expected %s" % (d[0], d[1], d[2]))
    for r, t in got:
        ctx.ob("token %s /%s/" % (t, r), True)


def check(ctx):
    f = new_fn(ctx, "ast_lexer::AstLexer")
    tm = ctx.fn("try_match")
    E = ctx.engine(opaque=lambda g: g.key == tm.key)
    text = sym("text", "&str")
    r = ctx.run(E, f, ["text", "field", "source"])
    ms = [e for e in E.events if e.path.endswith("::try_match")]
    if len(ms) != 1 or ms[0].args[0].op != "elem":
        raise Missing("one loop over the matchers")
    e = ms[0]
    arr = e.args[0].a[0]
    while arr.op == "ref" or (arr.op == "call" and last(arr.a[0]) in ("iter", "into_iter")):
        arr = arr.a[-1] if arr.op == "call" else arr.a[0]
    if arr.op != "arr":
        raise Missing("the array of matchers (%s)" % show(arr, 2)[:80])
    tab = table(ctx, arr)
    compare(ctx, tab, SPEC)
    match(ctx, tm)
    loop(ctx, E, r, e, text)
    queue(ctx, f)
    literals(ctx)


def match(ctx, tm):
    """try_match: what the regular expression finds"""
    E = ctx.engine()
    r = ctx.run(E, tm, ["matcher", "text"])
    finds = [x for x in subterms(r) if x.op == "call" and last(x.a[0]) == "find" and not x.a[0].startswith("core::str")]
    ok = len(finds) == 1 and finds[0].a[1] is E.field(sym("matcher", tm.locals[1]), "1") and finds[0].a[2].op == "sym" and finds[0].a[2].a[0] == "text"
    ctx.ob("match: the regular expression on the text", ok, "a token is not looked for with its regular expression at the start of the text")
    if not ok:
        return
    hit = some(finds[0])
    m = mk("call", "find", finds[0])
    ctx.ob("match: iff found", same_cond(is_some(r), hit), "a token is found under other conditions than its regular expression matching: %s" % show(is_some(r), 4)[:200])
    for l in leaves(r):
        if l.op == "adt" and l.a[1] == "Some":
            s = l.a[2]
            t, n = E.field(s, "str_match"), E.field(s, "len_full_match")
            whole = lambda x: x.op == "call" and last(x.a[0]) == "as_str" and x.a[1].op == "dfld" and x.a[1].a[0] is finds[0]
            end = lambda x: x.op == "call" and last(x.a[0]) == "end" and x.a[1].op == "dfld" and x.a[1].a[0] is finds[0]
            ctx.ob("match: text", t.op == "call" and last(t.a[0]) in ("trim", "trim_start") and whole(t.a[1]), "the token's text is %s" % show(t, 4)[:120])
            ctx.ob("match: length", (n.op == "call" and n.a[0] == "len" and whole(n.a[1])) or end(n), "the length is %s" % show(n, 4)[:120])
            w = E.field(s, "len_leading_whitespace")
            ctx.ob("match: leading whitespace", leading(prefixes(E, w)), "the length of the whitespace before a token is %s" % show(w, 6)[:160])


def leading(w):
    """a sum of UTF-8 lengths of the leading whitespace characters, or the difference of the lengths"""
    names = {last(x.a[0]) if x.op == "call" and isinstance(x.a[0], str) else x.op for x in subterms(w)}
    if "sum" in names:
        tw = [x for x in subterms(w) if x.op == "take_while"]
        return len(tw) == 1 and "len_utf8" in names and all(taken(tw[0].a[-1], c) == (c in " \t") for c in " \t\na\"")
    return {"trim_start", "len"} <= names


def taken(p, c):
    """What a predicate over characters says about c."""
    def choose(a):
        x = a.a[0]
        if x.op == "elem":
            return ord(c)
        if x.op == "call" and last(x.a[0]).startswith("is_") and hasattr(c, last(x.a[0]).replace("is_whitespace", "isspace").replace("is_", "is")):
            return getattr(c, last(x.a[0]).replace("is_whitespace", "isspace").replace("is_", "is"))()
        return None
    r = assume(p, choose)
    return True if r is TRUE else False if r is FALSE else None


def is_some(t):
    def f(x):
        if x.op == "adt":
            return TRUE if x.a[1] in ("Some", "Ok") else FALSE
        return only_true(some(x))
    return lift("is_some", f, t)


def count_of(t):
    """chars().count() of t -> t"""
    if t.op == "call" and last(t.a[0]) == "count" and t.a[1].op == "call" and last(t.a[1].a[0]) == "chars":
        if len(t.a) > 3 and t.a[3] is not TRUE:
            return None
        return t.a[1].a[1]


def prefix(t, of, length):
    """of[..length]"""
    return t.op == "call" and t.a[0] in ("idx", "index") or t.op == "idx"


def loop(ctx, E, r, e, text):
    P = e.args[1]
    if P.op != "rec" or P.id not in E.rec_info:
        raise Missing("the rest of the input")
    hit = e.ret
    H = E.state and None
    matcher = e.args[0]
    tok = E.field(matcher, "0")
    pushes = [x for x in E.events if last(x.path) == "push" and any(y.op == "adt" and last(y.a[0]) == "TokenMatch" for y in x.args)]
    outs = [l for l in leaves(r) if l not in (DEAD, CONT)]
    ctx.ob("loop: results", len([l for l in outs if l.a[1] == "Ok"]) >= 1 and len([l for l in outs if l.a[1] == "Err"]) >= 1, "the lexer does not return both tokens and errors")
    tms = [y for _, i in sorted((k, v) for k, v in E.rec_info.items()) if i[1] is not None for y in subterms(i[1]) if y.op == "adt" and last(y.a[0]) == "TokenMatch"]
    tms = list(dict.fromkeys(tms))
    if not tms:
        raise Missing("tokens collected")
    m = E.dfield(hit, "Some", "0") if hasattr(E, "dfield") else mk("dfld", hit, "Some", "0")
    sm, fl_, lw = (E.field(m, n) for n in ("str_match", "len_full_match", "len_leading_whitespace"))
    S0 = tms[0]
    pos = E.field(S0, "position")
    L = E.field(pos, "line_number")
    off = E.field(pos, "line_offset")
    O = next((x for x in off.a if isinstance(x, T) and x.op == "rec"), None) if off.op == "bin" else None
    if L.op != "rec" or O is None:
        ctx.ob("loop: positions", False, "a token's position is line %s, offset %s" % (show(L, 3)[:60], show(off, 3)[:80]))
        return
    upto = lambda n: mk("idx", P, mk("adt", "core::ops::range::RangeTo", "RangeTo", n))
    def chars_upto(t, n):
        x = count_of(t)
        return x is not None and x.op in ("idx", "call") and P in x.a and any(y.op == "adt" and y.a[1] in ("RangeTo",) and y.a[2] is n for y in x.a if isinstance(y, T))
    plus = lambda t, base, n: t.op == "bin" and t.a[0] == "Add" and ((t.a[1] is base and chars_upto(t.a[2], n)) or (t.a[2] is base and chars_upto(t.a[1], n)))
    for t in tms:
        p = E.field(t, "position")
        ctx.ob("loop: a token's text", E.field(t, "str_match") is sm, "a token's text is %s" % show(E.field(t, "str_match"), 4)[:120])
        ctx.ob("loop: a token's kind", E.field(t, "token") is tok or E.field(t, "token").op == "adt", "a token's kind is %s" % show(E.field(t, "token"), 4)[:120])
        ctx.ob("loop: a token's line", E.field(p, "line_number") is L, "a token's line is %s" % show(E.field(p, "line_number"), 4)[:120])
        ctx.ob("loop: a token's offset", plus(E.field(p, "line_offset"), O, lw), "a token's offset is not the one reached plus the whitespace before it: %s" % show(E.field(p, "line_offset"), 5)[:160])
        ctx.ob("loop: a token's field", E.field(t, "field").op == "sym" and E.field(t, "field").a[0] == "field", "a token's field is %s" % show(E.field(t, "field"), 3)[:80])
    V = next((x for i in list(E.rec_info.values()) if i[1] is not None for x in subterms(i[1]) if x.op == "upd" and last(x.a[0]) == "push" and x.a[2].op == "rec" and any(y in x.a for y in tms)), None)
    if V is None:
        raise Missing("the collection of tokens")
    V = V.a[2]
    lid = tuple(P.a[:3])
    inner = next((l for l in E.latch if l != lid), None)
    lat = E.latch[lid]
    kinds = variants_of(tok_adt(ctx))
    atoms = lambda d: atoms_of(d)
    found = some(hit)

    def under(d, kind):
        """d where a matcher of this kind matches"""
        d = pin_disc(d, hit, "Some")
        d = pin_disc(d, tok, kind)
        return drop(pin_next(d, "Some"))

    def nothing(d):
        d = pin_next(d, "None")
        return drop(assume(d, lambda a: "None" if a.op == "a.disc" and a.a[0].op == "findr" and a.a[0].a[2] is found else None))
    for k in kinds:
        st = {n: under(E.rec_info[x.id][1], k) for n, x in (("rest", P), ("tokens", V), ("line", L), ("offset", O))}
        rest = st["rest"]
        ctx.ob("after %s: rest" % k, rest.op in ("idx", "call") and P in rest.a and any(y.op == "adt" and y.a[1] == "RangeFrom" and y.a[2] is fl_ for y in rest.a if isinstance(y, T)),
               "after a token of kind %s the input goes on at %s" % (k, show(rest, 4)[:160]))
        if k in ("Newline", "Comment"):
            ctx.ob("after %s: dropped" % k, st["tokens"] is V, "%s does not just leave the tokens as they are: %s" % (k, show(st["tokens"], 3)[:120]))
        else:
            t = st["tokens"]
            ok = t.op == "upd" and last(t.a[0]) == "push" and t.a[2] is V and t.a[3].op == "adt"
            kd = E.field(t.a[3], "token") if ok else None
            ctx.ob("after %s: kept" % k, ok and (kd is tok or (kd.op == "adt" and kd.a[1] == k)), "a %s is not added to the tokens once, as such: %s" % (k, show(t, 4)[:160]))
        advance(ctx, E, k, st, L, O, P, fl_, plus)
    # starts
    for n, x, want in (("lines", L, "0"), ("tokens", V, "none")):
        i = E.rec_info[x.id][0]
        ctx.ob("start: " + n, i is c_int(0) if want == "0" else empty(i), "%s start as %s" % (n, show(i, 3)[:80]))
    i = E.rec_info[P.id][0]
    sp = [x for x in subterms(i) if x.op == "call" and last(x.a[0]) == "strip_prefix"]
    ok = len(sp) == 1 and sp[0].a[1] is text and sp[0].a[2].op == "c" and sp[0].a[2].a[1] in (ord("="), "=")
    ctx.ob("start: an = is skipped", ok, "the input is not taken from after a leading `=`: %s" % show(i, 5)[:120])
    if ok:
        s = [x for x in leaves(pin_disc(i, sp[0], "Some"))]
        n = [x for x in leaves(pin_disc(i, sp[0], "None"))]
        ctx.ob("start: input", len(s) == 1 and s[0].op == "dfld" and s[0].a[0] is sp[0] and n == [text], "the input starts as %s" % show(i, 4)[:120])
        start(ctx, E, E.rec_info[O.id][0], sp[0], text)
    # the matchers are tried in order until the first that matches, and the loop stops where nothing is left
    if inner is not None:
        l = E.latch[inner]
        goes = pin_disc(pin_next(l, "Some"), hit, "None")
        stops = pin_disc(pin_next(l, "Some"), hit, "Some")
        ctx.ob("loop: the next matcher", set(leaves(goes)) <= {TRUE}, "a matcher that does not match ends the search")
        ctx.ob("loop: first match", set(leaves(stops)) <= {FALSE, DEAD}, "the search goes on after a matcher that matched")
    ok_r = lambda l: l.op == "adt" and l.a[1] == "Ok"
    for name, how in (("after a token", lambda d: under(d, "Comma")), ("when nothing matches", nothing)):
        rest_now = how(E.rec_info[P.id][1])
        d, g = how(r), how(lat)
        blank = lambda a: a.op == "a.val" and a.a[0].op == "call" and a.a[0].a[0] == "len" and a.a[0].a[1].op == "call" and last(a.a[0].a[1].a[0]).startswith("trim") \
            and how(a.a[0].a[1].a[1]) is rest_now
        ats = [a for a in atoms_of(d) | atoms_of(g) if blank(a)]
        if not ats:
            ctx.ob("stop %s" % name, False, "whether to stop %s does not depend on whether anything is left" % name)
            continue
        for left in (False, True):
            dd, gg = d, g
            for a in ats:
                dd, gg = (restrict(x, a, OTHER if left else 0) for x in (dd, gg))
            ls = {l for l in leaves(dd) if l not in (DEAD, CONT)}
            gs = {l for l in leaves(gg)}
            if not left:
                ctx.ob("stop %s at the end" % name, ls and all(ok_r(l) for l in ls) and TRUE not in gs, "%s with nothing left, the lexer does not return the tokens" % name)
            elif name == "after a token":
                ctx.ob("stop %s otherwise" % name, gs == {TRUE}, "%s with more text, the lexer does not go on" % name)
            else:
                ctx.ob("stop %s otherwise" % name, ls and all(l.op == "adt" and l.a[1] == "Err" for l in ls) and TRUE not in gs, "%s, text is left and no error is reported" % name)
    for l in outs:
        if ok_r(l):
            t = E.field(l.a[2], "tokens")
            while t.op == "call" and last(t.a[0]) == "new":
                t = t.a[1]
            rv = t.op == "upd" and last(t.a[0]) == "reverse"
            ctx.ob("result: tokens", rv and all(x in (DEAD, CONT) or x is V or (x.op == "upd" and x.a[2] is V) for x in leaves(t.a[2])),
                   "the lexer's tokens are %s" % show(t, 3)[:120])


MULTI = {"DoubleQuotedString": (False, True), "FunctionDefinition": (False, True), "Newline": (True,)}


def pin_field(d, v):
    """d in a field / in the code section"""
    def f(a):
        if a.op == "a.disc":
            x = a.a[0]
            while x.op in ("ref",) or (x.op == "call" and last(x.a[0]) in ("as_ref", "clone")):
                x = x.a[-1] if x.op == "call" else x.a[0]
            return v if x.op == "sym" and x.a[0] == "field" else None
        if a.op == "a.val" and a.a[0].op == "call" and last(a.a[0].a[0]) in ("is_none", "is_some") and a.a[0].a[1].op == "sym" and a.a[0].a[1].a[0] == "field":
            return (v == "Some") == (last(a.a[0].a[0]) == "is_some")
    return assume(d, f)


def nl_(x):
    return x.op == "c" and x.a[1] in ("\n", ord("\n"))


def advance(ctx, E, k, st, L, O, P, n, plus):
    """Line and offset after a token: the last of its characters moves on in the line, unless it contains newlines; then they are counted, and the offset is what follows the last of them.
    In a field (which has a position for each of its characters) only characters are counted."""
    whole = lambda x: x.op in ("idx", "call") and P in x.a and any(isinstance(y, T) and y.op == "adt" and y.a[1] == "RangeTo" and y.a[2] is n for y in x.a)
    of = lambda x, names: x.op == "call" and last(x.a[0]) in names and len(x.a) > 2 and whole(x.a[1]) and nl_(x.a[2])
    cut = lambda x: of(x, ("rsplit_once",))

    def newline(d, has):
        def f(a):
            x = a.a[0]
            if a.op == "a.disc" and of(x, ("rsplit_once", "split_once", "rfind", "find")):
                return "Some" if has else "None"
            if a.op == "a.val" and of(x, ("contains",)):
                return has
            if a.op == "a.val" and number_of(x):
                return OTHER if has else 0
        return assume(d, f)

    def number_of(x):
        if x.op != "call" or last(x.a[0]) != "count":
            return False
        y = x.a[1]
        return of(y, ("matches", "match_indices")) and (len(x.a) < 4 or x.a[3] is TRUE)

    def rest(x):
        """what follows the last newline"""
        if x.op == "fld" and x.a[1] == "1":
            y = x.a[0]
            return (y.op == "dfld" and cut(y.a[0])) or cut(y)
        if x.op in ("idx", "call"):
            for y in x.a:
                if isinstance(y, T) and y.op == "adt" and y.a[1] == "RangeFrom" and y.a[2].op == "bin" and y.a[2].a[0] == "Add" and c_int(1) in y.a[2].a:
                    z = next(z for z in y.a[2].a[1:] if z is not c_int(1))
                    return z.op in ("dfld",) and of(z.a[0], ("rfind",)) and whole(x.a[0] if x.op == "idx" else x.a[1])
        return False
    added = lambda t, base, p: t.op == "bin" and t.a[0] == "Add" and ((t.a[1] is base and p(t.a[2])) or (t.a[2] is base and p(t.a[1])))
    for field in ("None", "Some"):
        for has in MULTI.get(k, (False,)):
            l, o = (list(set(x for x in leaves(newline(pin_field(st[w], field), has)) if x not in (DEAD, CONT))) for w in ("line", "offset"))
            where = "a %s%s%s" % (k, " in a field" if field == "Some" else "", " with newlines in it" if has and k != "Newline" else "")
            key = "%s%s%s" % (k, ", field" if field == "Some" else "", ", lines" if has and k != "Newline" else "")
            lines = lambda t: t is L or (not has and added(t, L, number_of))
            if field == "None" and has:
                lines = lambda t: added(t, L, number_of) or (k == "Newline" and added(t, L, lambda x: x is c_int(1)))
            offs = lambda t: plus(t, O, n)
            if field == "None" and has:
                offs = lambda t: (k == "Newline" and t is c_int(0)) or (count_of(t) is not None and rest(count_of(t)))
            if field == "Some" and k == "Newline":  # a field's lines are joined before it is read as a formula
                lines = offs = lambda t: True
            ctx.ob("after %s: line" % key, l and all(lines(t) for t in l), "after %s the line number is %s" % (where, "; ".join(show(t, 5)[:100] for t in l)))
            ctx.ob("after %s: offset" % key, o and all(offs(t) for t in o), "after %s the offset is %s" % (where, "; ".join(show(t, 6)[:120] for t in o)))


def start(ctx, E, o, sp, text):
    """Where the first token can be: after the `=`, which in a field comes after the options"""
    def before(t):
        if t.op != "call" or t.a[0] not in ("saturating_sub", "core::num::<impl usize>::saturating_sub") and last(t.a[0]) not in ("saturating_sub", "sub"):
            if not (t.op == "bin" and t.a[0] == "Sub"):
                return False
        a, b = [x for x in t.a if isinstance(x, T)][:2]
        a, b = count_of(a), count_of(b)
        return a is not None and b is text and any(x.op == "fld" and x.a[1] == "value" for x in [a] + list(subterms(a))) and any(x.op == "sym" and x.a[0] == "field" for x in subterms(a))
    for field in ("None", "Some"):
        for eq in ("Some", "None"):
            ls = [x for x in leaves(pin_disc(pin_field(o, field), sp, eq)) if x not in (DEAD, CONT)]
            one = c_int(1)
            if field == "None":
                ok = ls == [one if eq == "Some" else c_int(0)]
            elif eq == "None":
                ok = len(ls) == 1 and before(ls[0])
            else:
                ok = len(ls) == 1 and ls[0].op == "bin" and ls[0].a[0] == "Add" and one in ls[0].a and any(before(x) for x in ls[0].a[1:])
            ctx.ob("start: offset%s%s" % (", field" if field == "Some" else "", "" if eq == "Some" else " without ="), ok, "offsets start as %s" % "; ".join(show(x, 6)[:120] for x in ls))


def tok_adt(ctx):
    c = [a for a in ctx.F.adts if a.endswith("ast_lexer::token::Token")]
    if not c:
        raise Missing("the kinds of tokens")
    return c[0]


def empty(i):
    from sa.eng import empty_coll
    return empty_coll(i)


def pin_disc(d, t, v):
    """Deep: discriminant tests of t decided (and those of the first element for which t is Some)."""
    is_t = lambda x: x is t or (x.op == "findr" and x.a[2] is some(t))
    return assume(d, lambda a: v if a.op == "a.disc" and is_t(a.a[0]) else None)


def pin_next(d, v):
    return assume(d, lambda a: v if a.op == "a.disc" and (a.a[0].op == "next" or a.a[0].op == "call" and last(a.a[0].a[0]) == "next") else None)


def drop(d):
    ls = [l for l in leaves(d) if l not in (DEAD, CONT)]
    return ls[0] if len(set(ls)) == 1 else d


def from_end(x):
    """v[v.len() - 1]"""
    v, i = x.a[0], x.a[1]
    n = mk("call", "len", v)
    return isinstance(i, T) and i.op == "bin" and i.a[0] == "Add" and any(y.op == "call" and y.a[:2] == n.a[:2] for y in i.a[1:]) and c_int(-1) in i.a[1:]


def queue(ctx, f):
    """next takes the last of the (reversed) tokens, peek shows it, both give Eof when there is none"""
    lex = [g for g in ctx.fns(lambda g: not g.closure and "ast_lexer::AstLexer" in g.key) if g.name in ("next", "peek")]
    if len(lex) != 2:
        raise Missing("next and peek of the lexer")
    for g in lex:
        E = ctx.engine()
        r = ctx.run(E, g, ["lexer"])
        takes = [x for x in subterms(r) if (x.op == "call" and last(x.a[0]) in ("pop", "last", "first", "remove", "get")) or (x.op == "idx" and from_end(x))]
        names = {"last" if x.op == "idx" else last(x.a[0]) for x in takes}
        ctx.ob("%s: the next token" % g.name, names == {"pop" if g.name == "next" else "last"}, "%s is %s" % (g.name, show(r, 4)[:120]))
        for l in leaves(r):
            if l in (DEAD, CONT):
                continue
            if l.op == "adt":
                t = E.field(l, "token")
                ctx.ob("%s: at the end" % g.name, t.op == "adt" and t.a[1] == "Eof", "%s without tokens gives %s" % (g.name, show(t, 3)[:80]))
            else:
                ctx.ob("%s: token" % g.name, takes and any(x in takes for x in subterms(l)), "%s gives %s" % (g.name, show(l, 4)[:80]))
        if takes:
            there = lambda a: ("Some" if a.op == "a.disc" and a.a[0] is takes[0] else
                               OTHER if a.op == "a.val" and a.a[0].op == "call" and a.a[0].a[0] == "len" and takes[0].op == "idx" and a.a[0].a[1] is takes[0].a[0] else None)
            d = assume(r, there)
            ctx.ob("%s: while there are tokens" % g.name, not any(l.op == "adt" and E.field(l, "token").op == "adt" for l in leaves(d)), "%s gives Eof although tokens are left" % g.name)
        pops = [x for x in E.events if last(x.path) in ("pop", "clear", "remove", "truncate", "push", "insert", "drain")]
        if g.name == "peek":
            ctx.ob("peek: nothing consumed", not pops and not any(x.op == "upd" for x in E.state.values()), "peek changes the tokens")


def literals(ctx):
    f = [g for g in ctx.fns(lambda g: g.name == "try_from" and last(g.self_ty or "") == "Ast" and g.trait and "ast_lexer" in g.trait and not g.closure)]
    if len(f) != 1:
        raise Missing("the conversion of tokens into literals")
    E = ctx.engine(opaque=lambda g: g.name in ("parse_text", "parse_error", "into_parse_error"))
    r = ctx.run(E, f[0], ["token"])
    tk = sym("token", f[0].locals[1])
    kind, text = E.field(tk, "token"), E.field(tk, "str_match")
    want = {"Float": "f64", "Integer": "i64"}
    for k in variants_of(tok_adt(ctx)):
        d = pin_disc(r, kind, k)
        oks = [l for l in leaves(d) if l.op == "adt" and l.a[1] == "Ok"]
        other = [l for l in leaves(d) if l not in (DEAD, CONT) and not (l.op == "adt" and l.a[1] in ("Ok", "Err"))]
        node = [x for l in oks for x in subterms(l) if x.op == "adt" and last(x.a[0]) == "Node"]
        if k in want:
            ps = [x for x in subterms(d) if x.op == "call" and last(x.a[0]) == "parse"]
            ok = len(node) == 1 and node[0].a[1] == k and len(set(ps)) == 1 and ps[0].a[1] is text and number(E, node[0], ps[0])
            ctx.ob("literal: " + k, ok and any(want[k] in str(x) for x in subterms_flat(ps[0])), "a token of kind %s becomes %s" % (k, show(d, 5)[:200]))
            if ok:
                ctx.ob("literal: %s that cannot be parsed" % k, all(l.op == "adt" and l.a[1] == "Err" or l in (DEAD,) for l in leaves(pin_disc(d, ps[0], "Err"))),
                       "a number that cannot be represented gives %s" % show(pin_disc(d, ps[0], "Err"), 4)[:120])
        elif k == "Reference":
            ok = len(node) == 1 and node[0].a[1] == "Reference" and node[0].a[2] is text and len(oks) == 1 and not other
            ctx.ob("literal: " + k, ok, "a reference becomes %s" % show(d, 5)[:200])
        elif k == "Boolean":
            low = lambda x: x.op == "call" and last(x.a[0]) == "to_lowercase" and x.a[1] is text or x is text
            got = {}
            for v in ("true", "false"):
                dd = assume(d, lambda a: (v if v in (a.labels if hasattr(a, "labels") else [v]) else None) if a.op == "a.val" and low(a.a[0]) else None)
                dd = eq_text(dd, low, v)
                ns = [x for l in leaves(dd) if l.op == "adt" and l.a[1] == "Ok" for x in subterms(l) if x.op == "adt" and last(x.a[0]) == "Node"]
                got[v] = ns
                ctx.ob("literal: " + v, len(ns) == 1 and ns[0].a[1] == "Boolean" and ns[0].a[2] is (TRUE if v == "true" else FALSE)
                       and not [l for l in leaves(dd) if l.op == "adt" and l.a[1] == "Err"], "`%s` becomes %s" % (v, show(dd, 5)[:160]))
        elif k == "DoubleQuotedString":
            ps = [e for e in E.events if last(e.path) == "parse_text" and e.args[0] is tk]
            ok = ps and all(any(x is ps[0].ret for x in subterms(l)) for l in oks)
            ctx.ob("literal: " + k, bool(ok), "a string becomes %s" % show(d, 5)[:160])
        else:
            ctx.ob("literal: not " + k, not oks and not other, "a token of kind %s becomes a value: %s" % (k, show(d, 4)[:120]))


def number(E, n, p):
    v = E.field(n, "value")
    sg, pc = E.field(n, "sign"), E.field(n, "percentage")
    return v.op == "dfld" and v.a[0] is p and sg.op == "adt" and sg.a[1] == "None" and pc is FALSE


def eq_text(d, of, v):
    """Comparisons of a text with constants decided: the text is v."""
    def choose(a):
        x = a.a[0]
        if x.op == "call" and last(x.a[0]) in ("eq", "ne") or x.op == "bin" and x.a[0] in ("Eq", "Ne"):
            p, q = x.a[-2:]
            if q.op != "c":
                p, q = q, p
            if q.op == "c" and of(p):
                return (q.a[1] == v) == (last(x.a[0]) in ("eq", "Eq"))
        return None
    return assume(d, choose)


def subterms_flat(t):
    for x in subterms(t):
        for y in x.a:
            if isinstance(y, str):
                yield y
