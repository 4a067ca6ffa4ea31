"""C33: what an error says about where it is."""
from sa.q import *
from sa.terms import *
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, pin_next, drop, new_fn

TITLE = "Errors name the file, the cell and the line they are in, and show that line"
RULE = ("Every result of the functions which turn a failure to read or evaluate a cell, the spreadsheet section or the code section into an error is checked: the file is the source's, the address "
        "that of the very cell, the position that of the input, and the excerpt made for the same position. The excerpt is checked as the concatenation of slices of the "
        "source's lines with the number each is printed with; the texts are checked on what the Display implementations write.")
ERR = "csvpp::error::Error"


def variants(l):
    return l.op == "adt" and l.a[0].endswith("error::Error") and l.a[1] in ("CellSyntaxError", "CodeSyntaxError", "CsvParseError", "EvalError")


def errors(r):
    """Everything an error can be"""
    for l in leaves(r):
        if l.op == "adt" and l.a[1] == "Err":
            for x in leaves(l.a[2]):
                yield x
        elif l.op == "adt" and variants(l):
            yield l


def check(ctx):
    hl = [g for g in ctx.fns(lambda g: not g.closure and g.nargs == 2 and "String>" in g.locals[0] and g.locals[0].startswith("alloc::vec::Vec<") and "SourceCode" in g.locals[1] and "SourcePosition" in g.locals[2])]
    if len(hl) != 1:
        raise Missing("the function which shows a line")
    hl = hl[0]
    excerpt(ctx, hl)
    cells(ctx, hl)
    rows(ctx)
    sheet(ctx, hl)
    code(ctx, hl)
    positions(ctx)
    unknown(ctx, hl)
    texts(ctx)


def is_file(E, x, src):
    return x is E.field(src, "filename")


def cells(ctx, hl):
    f = ctx.fn("parse", self_has="cell::Cell")
    E = ctx.engine(opaque=lambda g: (g.name == "parse" and "AstParser" in g.key) or g.name == "parse_cell" or g is hl)
    r = ctx.run(E, f, ["field", "row", "source"])
    field, src = sym("field", f.locals[1]), sym("source", f.locals[3])
    n = 0
    for x in errors(r):
        n += 1
        if x.op != "adt" or x.a[1] != "CellSyntaxError":
            ctx.ob("cell: kind of error", False, "a cell that cannot be read is reported as %s" % show(x, 4)[:120], f.key)
            continue
        pe, ad = E.field(x, "parse_error"), E.field(x, "address")
        own = ad is E.field(field, "address") or (ad.op == "fld" and ad.a[1] == "address" and ad.a[0].op == "fld" and ad.a[0].a[1] == "field" and any(call_name(y) == "parse_cell" for y in subterms(ad)))
        ctx.ob("cell: file", is_file(E, E.field(x, "filename"), src), "an error in a cell names the file %s" % show(E.field(x, "filename"), 4)[:100], f.key)
        ctx.ob("cell: address", own, "an error in a cell names the cell %s" % show(ad, 5)[:100], f.key)
        ctx.ob("cell: the error", pe.op == "dfld" and pe.a[1] == "Err" and pe.a[0].op == "call" and call_name(pe.a[0]) in ("parse", "parse_cell"), "the error in a cell is reported as %s" % show(pe, 4)[:100], f.key)
        for y in subterms(pe):
            if call_name(y) == "parse" and "AstParser" in y.a[0]:
                g = [z for z in y.a if isinstance(z, T) and z.op == "adt" and z.a[1] == "Some"]
                ctx.ob("cell: formula in its field", len(g) == 1 and g[0].a[2].op in ("fld", "sym") and (g[0].a[2] is field or g[0].a[2].a[-1] == "field"), "a formula's tokens belong to %s" % show(y, 3)[:100], f.key)
                ctx.ob("cell: formula in its source", any(z is src for z in y.a), "a formula's tokens belong to another source", f.key)
    ctx.floor("errors of cells", n, 2)
    # the field kept in the cell is the one that was read
    cp = [g for g in ctx.fns(lambda g: g.name == "parse_cell" and not g.closure)]
    for g in cp:
        E = ctx.engine(opaque=lambda h: h.name in ("parse_row_options", "parse_cell_options", "parse_options", "parse_cell_or_row_options", "rest") or h is hl)
        r = ctx.run(E, g, ["field", "row", "source"])
        k = 0
        for l in leaves(r):
            if l.op == "adt" and l.a[1] == "Ok":
                k += 1
                fd = E.field(l.a[2], "field")
                okf = all(z is sym("field", g.locals[1]) or isinstance(z, T) and z.op in ("rec", "call", "upd", "fld", "dfld") and any(y is sym("field", g.locals[1]) for y in subterms(z)) for z in leaves(fd))
                if okf or any(y.op in ("rec", "loop") for y in subterms(fd)):
                    continue
                ctx.ob("cell: its field", False, "the cell that is read keeps the field %s" % show(fd, 3)[:100], g.key)
        ctx.counts["results of reading a cell"] = k


def call_name(t):
    return last(t.a[0]) if t.op == "call" else None


def rows(ctx):
    f = ctx.fn("eval", self_has="row::Row")
    E = ctx.engine(opaque=lambda g: g.name == "eval" and g.key.startswith("csvpp") and g is not f and "row::Row" not in g.key)
    r = ctx.run(E, f, ["self", "source", "scope", "a1"])
    S, src, a1 = (sym(n, f.locals[i + 1]) for i, n in enumerate(("self", "source", "scope", "a1")) if n != "scope")
    ev = [e for e in E.events if last(e.path) == "eval"]
    n = 0
    for x in errors(r):
        n += 1
        if not ctx.ob("row: kind of error", x.op == "adt" and x.a[1] == "EvalError", "a formula that cannot be evaluated is reported as %s" % show(x, 4)[:120], f.key):
            continue
        ad, er = E.field(x, "address"), E.field(x, "eval_error")
        ctx.ob("row: file", is_file(E, E.field(x, "filename"), src), "an error in a formula names the file %s" % show(E.field(x, "filename"), 4)[:100], f.key)
        ctx.ob("row: the error", er.op == "dfld" and er.a[1] == "Err" and any(e.ret is er.a[0] for e in ev), "the error in a formula is reported as %s" % show(er, 4)[:100], f.key)
        place = [z for e in ev for z in e.args if z.op == "adt" and z.a[1] == "Some"]
        ctx.ob("row: address", ad.op == "adt" and ad.a[1] == "Some" and place and all(z is ad for z in place), "an error in a formula names the cell %s, not the one it is evaluated for" % show(ad, 5)[:120], f.key)
        if ad.op == "adt" and ad.a[1] == "Some":
            xy = [z for z in ad.a[2].a if isinstance(z, T)]
            y_ok = len(xy) == 2 and (xy[1] is E.field(a1, "y") or any(z is a1 for z in subterms(xy[1])))
            x_ok = len(xy) == 2 and xy[0].op == "pos" and E.field(S, "cells") in (xy[0].a[0], E.isrc(xy[0].a[0])) if xy else False
            if len(xy) == 2 and (xy[0].op == "pos" or xy[0].op in ("c", "bin")):
                ctx.ob("row: the cell's column", x_ok, "the column named is %s" % show(xy[0], 4)[:100], f.key)
            ctx.ob("row: the row", y_ok, "the row named is %s" % show(xy[-1], 4)[:100] if xy else "", f.key)
    ctx.floor("errors of formulas", n, 1)


def parse_error(ctx, E, pe, hl, src, pos, what, key):
    """a parse error's position and excerpt are both of pos"""
    p, h = E.field(pe, "position"), E.field(pe, "highlighted_lines")
    ctx.ob(what + ": position", p is pos, "the position reported is %s, not %s" % (show(p, 4)[:100], show(pos, 4)[:60]), key)
    ctx.ob(what + ": excerpt", h.op == "call" and h.a[0] == hl.key and h.a[1] is src and h.a[2] is pos or h.op == "call" and call_name(h) == hl.name and list(h.a[1:3]) == [src, pos],
           "the lines shown are %s" % show(h, 4)[:120], key)


def sheet(ctx, hl):
    f = ctx.fn("parse", self_has="spreadsheet::Spreadsheet")
    E = ctx.engine(opaque=lambda g: (g.name == "parse" and "row::Row" in (g.self_ty or "")) or g.key.startswith("csvp::") or g is hl)
    r = ctx.run(E, f, ["source"])
    src = sym("source", f.locals[1])
    n = 0
    for x in errors(r):
        if x.op == "adt" and variants(x):
            n += 1
            ctx.ob("sheet: kind of error", x.a[1] == "CsvParseError", "a spreadsheet section that cannot be read is reported as a %s" % x.a[1], f.key)
            ctx.ob("sheet: file", is_file(E, E.field(x, "filename"), src), "an error in the spreadsheet section names the file %s" % show(E.field(x, "filename"), 4)[:100], f.key)
            pe = E.field(x, "parse_error")
            e = [y for y in subterms(pe) if y.op == "dfld" and y.a[1] == "Err"]
            if not e:
                raise Missing("the error of the spreadsheet section")
            parse_error(ctx, E, pe, hl, src, dfld(e[0], "ParseError", "position"), "sheet", f.key)
            for k in ("message", "bad_input"):
                ctx.ob("sheet: " + k, E.field(pe, k) is dfld(e[0], "ParseError", k), "the %s reported is %s" % (k, show(E.field(pe, k), 4)[:100]), f.key)
        else:
            ok = x.op == "dfld" and x.a[1] == "Err" and x.a[0].op == "call" and call_name(x.a[0]) == "parse"
            ctx.ob("sheet: a row's error", ok, "the error of a row is reported as %s" % show(x, 4)[:100], f.key)
    ctx.floor("errors of the spreadsheet section", n, 1)


def code(ctx, hl):
    """Whatever makes an error of the code section names the file of the same source."""
    n = 0
    reads = ctx.fns(lambda g: not g.closure and ("code_section_parser" in g.key or "ast_parser" in g.key or "token_match" in g.key) and g.locals[0].startswith(("core::result::Result", "csvpp::error::Error")) and "Error" in g.locals[0] and "::tests::" not in g.key)
    for g in reads:
        E = ctx.engine(opaque=lambda h: h is not g and ("code_section_parser" in h.key or "ast_parser" in h.key or "ast_lexer" in h.key) and h.name not in ("into_error", "into_parse_error") or h is hl or h.name in ("parse_error", "position"))
        r = ctx.run(E, g, ["a%d" % i for i in range(g.nargs)])
        for x in errors(r):
            if x.op != "adt" or not variants(x):
                continue
            n += 1
            fn = E.field(x, "filename")
            ctx.ob("code: %s: kind of error" % g.name, x.a[1] == "CodeSyntaxError", "a code section that cannot be read is reported as a %s" % x.a[1], g.key)
            own = fn.op == "fld" and fn.a[1] == "filename" and (fn.a[0].op == "sym" or fn.a[0].op in ("fld", "dfld") and fn.a[0].a[-1] in ("source_code", "0"))
            ctx.ob("code: %s: file" % g.name, own, "an error in the code section names the file %s" % show(fn, 4)[:100], g.key)
            pe = E.field(x, "parse_error")
            ok = (pe.op == "dfld" and pe.a[1] == "Err") or pe.op == "call" or pe.op == "adt"
            ctx.ob("code: %s: the error" % g.name, ok, "the error is reported as %s" % show(pe, 4)[:100], g.key)
    ctx.floor("errors of the code section", n, 2)
    # with the position and the text of the token
    fs = ctx.fns(lambda g: not g.closure and g.locals[0].endswith("ParseError") and g.nargs >= 2 and "SourceCode" in g.locals[1] and "csvp::Error" not in g.locals[2] and "csvp::error" not in g.locals[2])
    fs = [g for g in fs if any(x in g.locals[2] for x in ("BadInput", "token_match", "unknown_token", "cell_parse_error"))]
    for g in fs:
        E = ctx.engine(opaque=lambda h: h is hl or h.name == "position")
        r = ctx.run(E, g, ["self", "input", "message", "possible"][:g.nargs])
        src, inp, msg = (sym(x, g.locals[i + 1]) for i, x in enumerate(("self", "input", "message")))
        for x in leaves(r):
            if x.op != "adt":
                continue
            p = E.field(x, "position")
            ok = p.op == "call" and call_name(p) == "position" and any(y is inp for y in subterms(p))
            ctx.ob("input: position", ok, "the position reported is %s" % show(p, 4)[:100], g.key)
            if ok:
                parse_error(ctx, E, x, hl, src, p, "input", g.key)
            bi = pieces(E.field(x, "bad_input"))
            ctx.ob("input: text", len(bi) == 1 and not isinstance(bi[0], str) and bi[0][2] is inp, "the input reported is %s" % show(E.field(x, "bad_input"), 4)[:100], g.key)
            ctx.ob("input: message", shows(E.field(x, "message"), msg), "the message reported is %s" % show(E.field(x, "message"), 4)[:100], g.key)
    ctx.floor("errors made of inputs", len(fs), 2)


def positions(ctx):
    """Where a token says it is"""
    fs = ctx.fns(lambda g: g.name == "position" and "BadInput" in g.key and not g.closure)
    ctx.floor("kinds of inputs", len(fs), 5)
    for g in fs:
        E = ctx.engine()
        r = ctx.run(E, g, ["self"])
        S = sym("self", g.locals[1])
        n = last(g.self_ty.replace("<'_>", "")) if g.self_ty else g.key
        base = S
        if "cell_parse_error" in g.key:
            base = E.field(S, "bad_input")
        names = {x[0] for v in ctx.F.adts[next(a for a in ctx.F.adts if a == (g.self_ty or "").split("<")[0])]["variants"] for x in v[2]}
        cell = "cell_offset" in names or base is not S
        key = "%s (%s)" % (n, "cell options" if cell else "formulas")
        if cell:
            want = mk("idx", E.field(E.field(base, "field"), "positions"), E.field(base, "cell_offset"))
            ls = [element(l) for l in leaves(r) if l not in (DEAD, CONT)]
            ctx.ob("%s: position" % key, ls and all(l is want for l in ls), "its position is %s" % "; ".join(show(l, 4)[:100] for l in ls), g.key)
            continue
        own, fd = E.field(S, "position"), E.field(S, "field")
        off = E.field(own, "line_offset")

        def pin(d, field):
            return pin_disc(d, fd, field)
        ls = [l for l in leaves(pin(r, "None")) if l not in (DEAD, CONT)]
        ctx.ob("%s: position in the code section" % key, ls == [own], "its position is %s" % "; ".join(show(l, 4)[:100] for l in ls), g.key)
        d = pin(r, "Some")
        ps = E.field(dfld(fd, "Some", "0"), "positions")
        at = mk("idx", ps, off)
        eof = token_is(E, d, S, True)
        rest = token_is(E, d, S, False)
        inside = assume(rest, lambda a: cmp_is(a, off, mk("len", ps)))
        inside = assume(inside, lambda a: "Some" if a.op == "a.disc" and is_get(a.a[0]) and list(a.a[0].a[1:3]) == [ps, off] else None)
        ls = [element(l) for l in leaves(inside) if l not in (DEAD, CONT)]
        ctx.ob("%s: position in a cell" % key, ls and all(l is at for l in ls), "its position is %s" % "; ".join(show(l, 4)[:100] for l in ls), g.key)
        if "token" in names:
            ls = [l for l in leaves(eof) if l not in (DEAD, CONT) and l is not own]
            good = ls and all(end_of(E, l, ps) for l in ls)
            ctx.ob("%s: the end of a cell" % key, good, "the position of the end of a formula is %s" % "; ".join(show(l, 5)[:120] for l in ls), g.key)


def unknown(ctx, hl):
    """Text that is no token is reported where the next token would be."""
    f = new_fn(ctx, "ast_lexer::AstLexer")
    E = ctx.engine(opaque=lambda g: g.name in ("try_match", "position") or g is hl)
    r = ctx.run(E, f, ["text", "field", "source"])
    adts = lambda ts, n: {y for t in ts for y in subterms(t) if y.op == "adt" and last(y.a[0]) == n}
    toks = adts([i[1] for i in E.rec_info.values() if i[1] is not None], "TokenMatch")
    unk = adts([l for l in leaves(r)], "UnknownToken")
    if not toks or not unk:
        ctx.notes.append("unknown tokens: not analysed")
        return
    p = E.field(next(iter(toks)), "position")
    L, at = E.field(p, "line_number"), E.field(p, "line_offset")
    base = [x for x in at.a if isinstance(x, T) and x.op == "rec"] if at.op == "bin" else [at]
    for u in unk:
        q = E.field(u, "position")
        # (no matcher matched)
        q = {k: drop(assume(pin_next(E.field(q, k), "None"), lambda a: "None" if a.op == "a.disc" and (a.a[0].op == "findr" or call_name(a.a[0]) == "try_match") else None)) for k in ("line_number", "line_offset")}
        o = q["line_offset"]
        ok = o in base or (o.op == "bin" and o.a[0] == "Add" and any(x in base for x in o.a[1:]))
        ctx.ob("unknown text: line", q["line_number"] is L, "the line reported for text that is no token is %s" % show(q["line_number"], 4)[:100], f.key)
        ctx.ob("unknown text: offset", ok, "the offset reported for text that is no token is %s" % show(o, 4)[:100], f.key)
        fd = E.field(u, "field")
        ctx.ob("unknown text: field", fd.op == "sym" and fd.a[0] == "field", "text that is no token is reported in %s" % show(fd, 3)[:80], f.key)


def element(l):
    """v.get(i) is v[i] where there is one"""
    return mk("idx", *l.a[0].a[1:3]) if l.op == "dfld" and l.a[1] == "Some" and is_get(l.a[0]) else l


def is_get(x):
    return x.op == "call" and last(x.a[0]) in ("sget", "get") and len(x.a) == 3


def token_is(E, d, S, eof):
    tok = E.field(S, "token")
    kinds = {x for a in atoms_of(d) if a.op == "a.disc" and a.a[0] is tok for x in ()}

    def f(a):
        if a.op == "a.disc" and a.a[0] is tok:
            return "Eof" if eof else "Comma"
        return None
    return assume(d, f)


def cmp_is(a, off, ln):
    """offset < length"""
    x = a.a[0]
    if a.op == "a.val" and x.op == "bin" and off in x.a:
        o = x.a[0]
        other = [y for y in x.a[1:] if y is not off]
        if other and other[0].op in ("len", "call") and ("len" in str(other[0].a[0]) or other[0].op == "len"):
            left = x.a[1] is off
            return {"Lt": left, "Ge": not left, "Gt": not left, "Le": left}.get(o)
    return None


def end_of(E, l, ps):
    """one past the last character"""
    o, n = E.field(l, "line_offset"), E.field(l, "line_number")
    if o.op != "bin" or o.a[0] != "Add" or c_int(1) not in o.a:
        return False
    p = next(x for x in o.a[1:] if x is not c_int(1))
    return p.op == "fld" and p.a[1] == "line_offset" and n.op == "fld" and n.a[0] is p.a[0] and any(x is ps for x in subterms(p))


def is_lines(E, t, src):
    """all lines of the source"""
    while t.op == "coll":
        b = t.a[1]
        if t.a[2] is not TRUE:
            return False
        while b.op == "call" and len(b.a) == 2 and last(b.a[0]) in ("to_string", "to_owned", "into", "clone", "from"):
            b = b.a[1]
        if not (b.op == "elem" and b.a[0] is t.a[0]):
            return False
        t = t.a[0]
    return t.op == "call" and last(t.a[0]) == "lines" and t.a[1] is E.field(src, "original")


def plain(t):
    """without colours"""
    while t.op == "call" and ("colored" in t.a[0] or "Coloriz" in t.a[0] or last(t.a[0]) in ("dimmed", "bright_red", "yellow", "red", "bold", "normal", "clear")) and len(t.a) >= 2:
        t = t.a[1]
    return t


def segments(E, t):
    """A list as the lists and elements it is put together from, in order; None if not known"""
    if t.op == "upd":
        n = last(t.a[0])
        b = segments(E, t.a[2])
        if b is None:
            return None
        if n == "push":
            return b + [("one", t.a[3], t.a[2])]
        if n in ("extend", "append", "extend_from_slice"):
            c = segments(E, t.a[3])
            return None if c is None else b + c
        return None
    if t.op == "coll" and t.a[0].op == "idx" and t.a[2] is TRUE:
        return [("slice", t.a[0], t.a[1])]
    if t.op == "arr":
        return [("one", x, None) for x in t.a]
    from sa.eng import empty_coll
    if empty_coll(t):
        return []
    return None


def excerpt(ctx, hl):
    E = ctx.engine()
    r = ctx.run(E, hl, ["self", "pos"])
    src, pos = sym("self", hl.locals[1]), sym("pos", hl.locals[2])
    n, o = E.field(pos, "line_number"), E.field(pos, "line_offset")
    ls = [l for l in leaves(r) if l.op == "coll" and not is_lines(E, l, src)]
    if len(ls) != 1:
        ctx.notes.append("excerpt: not analysed (%d results)" % len(ls))
        return
    c = ls[0]
    sg = segments(E, c.a[0])
    if sg is None or c.a[2] is not TRUE:
        ctx.notes.append("excerpt: not analysed (how its lines are put together)")
        return

    def count(t):
        while t.op == "call" and len(t.a) == 2 and last(t.a[0]) in ("into", "from", "clone"):
            t = t.a[1]
        return t.op in ("len", "call") and (t.op == "len" or last(t.a[0]) in ("len", "count")) and any(is_lines(E, y, src) for y in t.a if isinstance(y, T))

    def inside(a):
        x = a.a[0]
        if a.op == "a.val" and x.op == "bin" and x.a[0] in ("Lt", "Ge", "Gt", "Le") and n in x.a[1:]:
            i = x.a[1:].index(n)
            if count(x.a[2 - i]):
                return {("Lt", 0): True, ("Ge", 0): False, ("Gt", 1): True, ("Le", 1): False}.get((x.a[0], i))
    got = [l for l in leaves(assume(r, inside)) if l not in (DEAD, CONT)]
    ctx.ob("excerpt: for lines of the source", got == [c], "for some line of the source no excerpt is shown", hl.key)
    want = ["before", "line", "marker", "after"]
    kinds = [kind(E, s, src, n, o) for s in sg]
    ctx.ob("excerpt: lines", kinds == want, "the lines shown are %s" % ", ".join(str(k) for k in kinds), hl.key)
    # what is printed of each
    b = c.a[1]
    marker = next((s for s in sg if s[0] == "one" and kind(E, s, src, n, o) == "marker"), None)
    if marker is None or kinds != want:
        return
    at = [a for a in atoms_of(b) if a.op == "a.val" and a.a[0].op == "bin" and a.a[0].a[0] in ("Eq", "Ne") and any(x.op == "pos" for x in a.a[0].a[1:])]
    good = len(at) == 1 and any(x.op == "len" and x.a[0] is marker[2] or x.op == "call" and last(x.a[0]) == "len" and x.a[1] is marker[2] for x in at[0].a[0].a[1:])
    if not at:
        ctx.notes.append("excerpt: numbers not analysed")
        return
    ctx.ob("excerpt: the marker's line", good, "the line that is not numbered is not the marker's", hl.key)
    eq = at[0].a[0].a[0] == "Eq"
    on = lambda d, yes: assume(d, lambda a: (yes == eq) if a is at[0] else None)
    for yes, d in ((True, on(b, True)), (False, on(b, False))):
        for l in leaves(d):
            ps = pieces(l)
            if not ps or isinstance(ps[-1], str):
                ctx.ob("excerpt: a line's text", False, "a line is shown as %s" % show(l, 4)[:120], hl.key)
                continue
            t = ps[-1][2]
            own = t.op == "gate" or t.op == "elem"
            if t.op == "gate":
                own = all(a.op == "a.val" and a.a[0].op == "pick" and a.a[0].a[0] is c.a[0] for a in [t.a[0]] if isinstance(a, T)) if isinstance(t.a[0], T) else True
            ctx.ob("excerpt: a line's text", own, "a line's text is shown as %s" % show(t, 4)[:120], hl.key)
            nums = [p for p in ps if not isinstance(p, str) and p[1].replace("&", "") in ("usize", "u64", "u32")]
            if yes:
                ctx.ob("excerpt: no number for the marker", not nums, "the marker's line is numbered", hl.key)
                continue
            if not ctx.ob("excerpt: a number", len(nums) == 1, "a line is not numbered", hl.key):
                continue
            v = nums[0][2]
            recs = [x for x in subterms(v) if x.op == "rec" and x.id in E.rec_info]
            if v.op == "bin" and v.a[0] == "Add" and len(recs) == 1 and recs[0] in v.a and c_int(1) in v.a:
                first, step = E.rec_info[recs[0].id][:2]
                R = recs[0]
                ctx.ob("excerpt: the first number", first_is(first, n), "the first line shown is numbered %s + 1" % show(first, 4)[:80], hl.key)
                ctx.ob("excerpt: the next number", [x for x in leaves(on(step, True))] == [R] and [x for x in leaves(on(step, False))] == [v], "line numbers go on as %s" % show(step, 4)[:100], hl.key)
            elif v.op == "rec":
                first, step = E.rec_info[v.id][:2]
                up = [x for x in leaves(on(step, False))]
                ctx.ob("excerpt: the first number", first.op == "bin" and first.a[0] == "Add" and c_int(1) in first.a and any(first_is(x, n) for x in first.a[1:]), "the first line shown is numbered %s" % show(first, 4)[:80], hl.key)
                ctx.ob("excerpt: the next number", [x for x in leaves(on(step, True))] == [v] and len(up) == 1 and up[0].op == "bin" and up[0].a[0] == "Add" and set(up[0].a[1:]) == {v, c_int(1)}, "line numbers go on as %s" % show(step, 4)[:100], hl.key)
            else:
                ctx.notes.append("excerpt: numbers not analysed (%s)" % show(v, 3)[:60])


def first_is(t, n):
    return t.op == "call" and last(t.a[0]) == "saturating_sub" and t.a[1] is n and t.a[2] is c_int(3)


def kind(E, s, src, n, o):
    if s[0] == "slice":
        whole, rng = s[1].a[0], s[1].a[1]
        b = plain(s[2])
        if not is_lines(E, whole, src) or rng.op != "adt" or rng.a[1] not in ("Range",) or not (b.op == "elem" and b.a[0] is s[1]):
            return "some lines (%s)" % show(rng, 4)[:100]
        lo, hi = rng.a[2], rng.a[3]
        if first_is(lo, n) and hi is n:
            return "before"
        if lo.op == "bin" and lo.a[0] == "Add" and set(lo.a[1:]) == {n, c_int(1)} and hi.op in ("call", "min", "bin"):
            xs = [x for x in hi.a if isinstance(x, T)]
            if ("min" in str(hi.a[0]) or hi.op == "min") and len(xs) == 2 and any(x.op in ("len", "call") and any(is_lines(E, y, src) for y in x.a if isinstance(y, T)) for x in xs) \
                    and any(x.op == "bin" and x.a[0] == "Add" and set(x.a[1:]) == {n, c_int(4)} for x in xs):
                return "after"
        return "lines %s to %s" % (show(lo, 4)[:60], show(hi, 4)[:60])
    t = plain(s[1])
    while t.op == "call" and len(t.a) == 2 and last(t.a[0]) in ("to_string", "clone", "as_str", "into", "from"):
        t = t.a[1]
    if t.op == "idx" and is_lines(E, t.a[0], src):
        return "line" if t.a[1] is n else "line %s" % show(t.a[1], 4)[:60]
    ps = pieces(t)
    if ps and isinstance(ps[-1], str) and ps[-1] == "^" and len(ps) == 2 and not isinstance(ps[0], str):
        x = ps[0][2]
        if x.op == "call" and last(x.a[0]) == "repeat" and x.a[1].op == "c" and x.a[1].a[1] in ("-", " "):
            return "marker" if x.a[2] is o else "marker at %s" % show(x.a[2], 4)[:60]
    return show(t, 3)[:60]


def texts(ctx):
    """What is printed"""
    f = [g for g in ctx.fns(lambda g: g.name == "fmt" and "Display" in g.key and (g.self_ty or "").endswith("error::Error") and not g.closure and "csvp::error" not in (g.self_ty or ""))]
    if len(f) != 1:
        raise Missing("how errors are printed")
    E, S, out = printed(ctx, f[0])
    tests = [("CellSyntaxError", None), ("CodeSyntaxError", None), ("CsvParseError", None), ("EvalError", "Some"), ("EvalError", "None")]
    for v, addr in tests:
        d = assume(out, lambda a: v if a.op == "a.disc" and a.a[0] is S else None)
        ad = dfld(S, v, "address")
        if addr:
            d = pin_disc(d, ad, addr)
            ad = dfld(ad, "Some", "0")
        d = assume(d, lambda a: "Ok" if a.op == "a.disc" and a.a[0].op in ("call", "ext") else None)
        ls = [l for l in leaves(d) if l not in (DEAD, CONT)]
        for l in ls:
            ps = [p[2] for p in pieces(l) if not isinstance(p, str)]
            name = v + (" (%s address)" % addr if addr else "")
            ctx.ob("printed: %s: file" % name, any(shows(p, dfld(S, v, "filename")) for p in ps), "the file is not printed", f[0].key)
            if addr == "Some" or v == "CellSyntaxError":
                ctx.ob("printed: %s: cell" % name, any(p is ad for p in ps), "the cell is not printed", f[0].key)
                nums = [p for p in ps if p.op == "fld" and p.a[1] in ("x", "y")]
                ctx.ob("printed: %s: column and row" % name, [show(p, 9)[-8:] for p in nums] in ([], ["column.x"[-8:], show(nums[-1], 9)[-8:]] if nums else []) and all(any(y is ad for y in subterms(p)) for p in nums), "the numbers printed are %s" % [show(p, 3) for p in nums], f[0].key)
            inner = dfld(S, v, "eval_error" if v == "EvalError" else "parse_error")
            ctx.ob("printed: %s: the error" % name, any(shows(p, inner) for p in ps), "the error itself is not printed", f[0].key)
    pe = [g for g in ctx.fns(lambda g: g.name == "fmt" and "Display" in g.key and "Debug" not in g.key and (g.self_ty or "").endswith("ParseError") and "Cell" not in (g.self_ty or "") and not g.closure)]
    if len(pe) != 1:
        raise Missing("how syntax errors are printed")
    E, S, out = printed(ctx, pe[0])
    n = E.field(E.field(S, "position"), "line_number")
    ok = 0
    hs = E.field(S, "highlighted_lines")
    first, shown = [], False
    for l in leaves(out):
        if l.op == "rec" and l.id in E.rec_info:
            first += list(leaves(E.rec_info[l.id][0]))
            for x in leaves(E.rec_info[l.id][1]):
                ps = [p for p in pieces(x) if not isinstance(p, str)] if x.op == "fmt" else []
                shown = shown or any(p[2] is not l and any(y is hs or y.op == "rec" and y.id in E.rec_info and E.rec_info[y.id][0] is hs or y.op == "rec" and y.id in E.rec_info and E.isrc(E.rec_info[y.id][0]) is hs
                                                                  for y in subterms(p[2])) for p in ps)
        else:
            first.append(l)
            shown = shown or any(y is hs for x in subterms(l) if x.op == "disp" for y in subterms(x))
    for l in first:
        if l in (DEAD, CONT) or l.op != "fmt":
            continue
        vals = [x for x in subterms(l) if x.op == "disp"]
        one = [x for x in vals if x.a[2].op == "bin" and x.a[2].a[0] == "Add" and set(x.a[2].a[1:]) == {n, c_int(1)}]
        lines = [x for x in vals if any(y is n for y in subterms(x.a[2])) or x.a[2] is n]
        ok += 1
        ctx.ob("printed: line", one and len(set(lines)) == len(set(one)), "the line printed is %s" % [show(x.a[2], 3) for x in lines][:2], pe[0].key)
        for k in ("message", "bad_input"):
            ctx.ob("printed: " + k, any(x.a[2] is E.field(S, k) for x in vals), "the %s is not printed" % k, pe[0].key)
    ctx.ob("printed: excerpt: all of it", not left_out(E, out, hs), "some lines of the excerpt are not printed", pe[0].key)
    ctx.ob("printed: excerpt", shown, "the excerpt is not printed", pe[0].key)
    ctx.floor("texts of syntax errors", ok, 1)


PARTS = ("skip", "take", "step_by", "skip_while", "take_while", "filter", "nth", "first", "last", "next_back")


def left_out(E, out, hs):
    """Is what is printed made of some of hs only?"""
    todo, seen = [out], set()
    while todo:
        for y in subterms(todo.pop()):
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == "rec" and y.id in E.rec_info:
                todo += [t for t in E.rec_info[y.id][:2] if t is not None]
            if (y.op in PARTS or y.op == "call" and y.a[0].rsplit("::", 1)[-1] in PARTS) and any(z is hs for z in subterms(y)):
                return True
    return False


def shows(p, x):
    while p is not x and p.op in ("ref", "call", "disp", "fmt") and len([y for y in p.a if isinstance(y, T)]) == 1:
        p = [y for y in p.a if isinstance(y, T)][0]
    return p is x
