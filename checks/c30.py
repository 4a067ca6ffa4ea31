"""C30: from the text of a cell to its options and value; what a cell inherits from its row."""
from sa.terms import *
from sa.q import *
from checks.c01 import opaque, fields

TITLE = "Cells inherit their row's options; a cell's value is the text after its options"
RULE = ("The parser of a cell is evaluated with the lexer and the option dispatcher as unknowns: each shared field of the finished cell must be the "
        "row's current value (or what the cell's own options made of it), row options must imply column 0, a second set of cell options must fail, "
        "every option list runs until its end token, errors propagate, and rows and records are mapped one to one, in order.")
LEX = "csvpp::parser::cell_lexer"


def base(t, n="row"):
    """row / the row after some options have been read"""
    return t


def last(p):
    return p.split("::")[-1]


def is_row(E, t, row, seen=()):
    if t is row:
        return True
    if t in seen:
        return True
    if t.op == "rec" and t.id in E.rec_info:
        i, s = E.rec_info[t.id][:2]
        return is_row(E, i, row, seen + (t,)) and (s is None or all(x in (DEAD, CONT) or is_row(E, x, row, seen + (t,)) for x in leaves(s)))
    if t.op == "upd":
        return (last(t.a[0]) in ("parse_cell_options@row", "parse@row") or t.a[0].endswith("@row") or any(x is row for x in t.a[2:]))
    return False


def inherited(ctx, E, cell, row, key, where_=""):
    shared = [f for f in fields(ctx, "cell::Cell") if f in fields(ctx, "row::Row") and f not in ("cells", "var")]
    ctx.floor("inherited options", len(shared), 13)
    for f in shared:
        v = E.field(cell, f)
        good = all(l.op == "fld" and l.a[1] == f and is_row(E, l.a[0], row) for l in leaves(v) if l not in (DEAD, CONT))
        ctx.ob("%s inherits %s" % (key, f), good, "a cell's %s starts as %s, not as its row's" % (f, show(v, 4)[:80]), where_)
    v = E.field(cell, "var")
    ctx.ob(key + " no variable of the row", isnone(v), "a cell starts with the variable %s" % show(v, 3)[:60], where_)


def isnone(v):
    return all(l.op == "adt" and l.a[1] == "None" for l in leaves(v) if l not in (DEAD, CONT))


def parse_cell(ctx):
    f = ctx.fn("parse_cell", self_has="CellParser")
    E = ctx.engine(opaque=lambda g: opaque(g) or g.name == "parse_cell_options")
    r = ctx.run(E, f, ["field", "row", "source"])
    field, row = sym("field", f.locals[1]), sym("row", f.locals[2])
    opts = [e for e in E.events if last(e.path) == "parse_cell_options"]
    starts = [e for e in E.events if last(e.path) == "maybe_take_start_options"]
    ctx.floor("option lists", len(opts), 1)
    ok = only_true(okd(r))
    for e in opts:
        p = e.args[0]
        cell = E.field(p, "cell")
        inherited(ctx, E, cell, row, "with options:", where(e))
        ctx.ob("options: of the field", E.field(cell, "field") is field, "the cell's field is %s" % show(E.field(cell, "field"), 3)[:60], where(e))
        lex = E.field(p, "lexer")
        tok = [a for a in atoms_of(e.guard) if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "maybe_take_start_options"]
        if not ctx.ob("options: after a start token", len(tok) == 1 and implies(only_true(e.guard), is_variant(tok[0].a[0], OPTION, "Some")),
                      "an option list is read without its start token", where(e)):
            continue
        t = tok[0].a[0]
        tk = fld(dfld(t, "Some"), "token")
        TOK = next(k for k in ctx.F.adts if k.endswith("cell_lexer::token::Token"))
        isrow = is_variant(tk, TOK, "StartRowOptions")
        got = truth(E.field(p, "is_row_options"))
        poss = is_variant(tk, TOK, "StartRowOptions", "StartCellOptions")
        g = b_and(only_true(e.guard), poss)
        same_, a, b = same_cond(got, isrow, g)
        ctx.ob("options: of row or cell", same_, "options are applied to the row: " + (diff(a, b, g) if not same_ else ""), where(e))
        ctx.ob("options: same lexer", lex.op == "upd" and last(lex.a[0]) == "maybe_take_start_options" and lex.a[2] is t.a[1],
               "the options are not read from where the start token ended: %s" % show(lex, 3)[:80], where(e))
        # row options on the first cell only
        col = [a for a in atoms_of(e.guard) if a.op == "a.val" and a.a[0] is fld(field, "address", "column", "x")]
        at0 = mk_gate(col[0], {0: TRUE}, FALSE) if col else FALSE
        ctx.ob("row options only first", bool(col) and implies(b_and(g, isrow), at0), "row options are accepted on a cell which is not the first of its row", where(e))
        ctx.ob("row options on first", satisfiable(b_and(b_and(g, isrow), at0)), "row options are never accepted", where(e))
        ctx.ob("cell options anywhere", bool(col) and not implies(b_and(g, b_not(isrow)), at0), "cell options are only accepted on the first cell", where(e))
        # ... and an error otherwise
        errd = only_true(isv(r, RESULT, "Err"))
        bad = b_and(b_and(is_variant(t, OPTION, "Some"), isrow), b_not(at0) if col else TRUE)
        ctx.ob("misplaced row options fail", bool(col) and not satisfiable(b_and(ok, bad)), "row options on a later cell are not an error", where(e))
        # the parsed cell carried round the loop
        ctx.ob("failing options fail", must_stop(E, r, e), "an error in an option list is ignored", where(e))
        carried = [(k, E.rec_info[k]) for k in E.rec_info if E.rec_info[k][0].op == "adt" and E.rec_info[k][0].a[0] == OPTION]
        if ctx.ob("one cell carried", len(carried) == 1, "the cell made by its options is not kept"):
            k, (init, step, *_) = carried[0]
            rec = [x for x in deep(E, r) if x.op == "rec" and x.id == k]
            if ctx.ob("carried cell is the result", bool(rec), "the cell made by its options is not the one returned"):
                rec = rec[0]
                own = lift(None, lambda x: TRUE if x.op == "adt" and x.a[1] == "Some" and after(E, x.a[2], e) else x if x in (DEAD, CONT) else
                           FALSE if x is rec else mk("odd", x), step)
                ctx.ob("carried cell updates", all(x in (TRUE, FALSE, DEAD, CONT) for x in leaves(own)), "the kept cell is also set to %s" % [
                    show(x, 4)[:80] for x in leaves(own) if x.op == "odd"][:1])
                s_, a, b = same_cond(only_true(own), b_not(isrow), b_and(g, is_variant(e.ret, RESULT, "Ok")))
                ctx.ob("carried cell", s_, "the options of a cell are kept: " + (diff(a, b) if not s_ else ""))
                twice = b_and(b_and(is_variant(rec, OPTION, "Some"), is_variant(t, OPTION, "Some")), b_and(b_not(isrow), poss))
                ctx.ob("twice fails", not satisfiable(b_and(only_true(e.guard), twice)) and not satisfiable(b_and(ok, twice)),
                       "a second set of cell options is accepted", where(e))
    # the result
    cells = [l.a[2] for l in leaves(r) if l.op == "adt" and l.a[1] == "Ok"]
    ctx.floor("finished cells", len(cells), 1)
    none = isv(starts[0].ret, OPTION, "None") if starts else FALSE
    ctx.ob("until no more options", implies(ok, only_true(none)), "a cell is finished although more options follow")
    recs = [x for x in deep(E, r) if x.op == "rec" and x.id in E.rec_info and E.rec_info[x.id][0].op == "adt" and E.rec_info[x.id][0].a[0] == OPTION]
    fs, rows = fields(ctx, "cell::Cell"), fields(ctx, "row::Row")
    for c in cells:
        for f_ in fs:
            v = E.field(c, f_)
            own, inh = [], []
            for p, l in paths(v):
                if l in (DEAD, CONT):
                    continue
                if f_ == "parsed_value":
                    l = strip_copy(l)
                    good = l.op == "call" and last(l.a[0]) == "rest" and l.a[1].op == "upd" and last(l.a[1].a[0]) == "maybe_take_start_options"
                    ctx.ob("value is the rest", good, "the value of a cell is %s, not the text left after its options" % show(l, 4)[:100])
                    continue
                some_ = [lab for a, lab in p if a.op == "a.disc" and a.a[0] in recs]
                if l.op == "fld" and l.a[1] == f_ and l.a[0].op == "dfld" and l.a[0].a[0] in recs:
                    ctx.ob("with options: keeps " + f_, some_ != ["None"], "the %s of a cell comes from options it does not have" % f_)
                    own.append(l)
                    continue
                inh.append(l)
                ctx.ob("without options: %s if none" % f_, some_ == ["None"], "the %s the cell's options gave is replaced by %s" % (f_, show(l, 3)[:60]))
                if f_ == "field":
                    ctx.ob("without options: field", l is field, "the cell's field is %s" % show(l, 3)[:60])
                elif f_ in rows and f_ not in ("cells", "var"):
                    ctx.ob("without options: inherits " + f_, l.op == "fld" and l.a[1] == f_ and is_row(E, l.a[0], row),
                           "a cell's %s is %s, not its row's" % (f_, show(l, 4)[:80]))
                else:
                    ctx.ob("without options: no " + f_, isnone(l), "a cell has the %s %s" % (f_, show(l, 3)[:60]))
            if f_ != "parsed_value":
                ctx.ob("finished cell: " + f_, own and inh, "the %s of a cell is %s" % (f_, show(v, 3)[:80]))
    new = [e for e in E.events if last(e.path) == "new" and LEX in e.path]
    ctx.ob("lexer over the field", len(new) == 1 and new[0].args[0] is field, "the lexer does not read the cell's field")


def after(E, x, e):
    """x is the cell inside the parser after the options were read"""
    return x.op == "fld" and x.a[1] == "cell" and x.a[0].op == "upd" and x.a[0].a[0] == e.path


def option_list(ctx):
    f = ctx.fn("parse_cell_options")
    E = ctx.engine(opaque=lambda g: opaque(g) or g.name == "option")
    r = ctx.run(E, f, ["self"])
    op = [e for e in E.events if last(e.path) == "option"]
    ok = only_true(okd(r))
    if not ctx.ob("list: options read", len(op) == 1, "options are read at %d places" % len(op)):
        return
    o = op[0]
    ctx.ob("list: an option each time", undead(o.guard, FALSE) is TRUE, "an option is only read under a condition", where(o))
    ctx.ob("list: errors", must_stop(E, r, o), "a failing option is ignored", where(o))
    end = [e for e in E.events if last(e.path) == "maybe_take_end_options"]
    if ctx.ob("list: end", len(end) >= 1, "the list has no end"):
        closed = FALSE
        for e in end:
            closed = b_or(closed, b_and(only_true(e.guard), is_variant(e.ret, OPTION, "Some")))
        s, a, b = same_cond(ok, closed, is_variant(o.ret, RESULT, "Ok"))
        ctx.ob("list: until its end", s, "the list ends " + (diff(a, b) if not s else ""))
    for l in leaves(r):
        if l not in (DEAD, CONT) and not (l.op == "adt" and l.a[1] == "Ok"):
            ctx.ob("list: error", l.op == "adt" and l.a[1] == "Err" and l.a[2] is dfld(o.ret, "Err"), "the error is %s" % show(l, 4)[:80])


def start(ctx):
    f = ctx.fn("maybe_take_start_options")
    E = ctx.engine()
    r = ctx.run(E, f, ["self"])
    st = E.state.get(sym("self", f.locals[1]))
    rest = E.field(st, "input") if st is not None else None

    def starts_at(text):
        """labels of the tests of how the input starts, when it starts with `text`"""
        def choose(a):
            c = a.a[0]
            if a.op == "a.disc" and c.op == "call" and last(c.a[0]) == "strip_prefix" and c.a[2].op == "c":
                return "Some" if text.startswith(c.a[2].a[1]) else "None"
            if a.op == "a.val" and c.op == "call" and last(c.a[0]) == "starts_with" and c.a[2].op == "c" and isinstance(c.a[2].a[1], str):
                return text.startswith(c.a[2].a[1])
            return None
        return choose
    for text, kind in (("[[", "StartCellOptions"), ("![[", "StartRowOptions"), ("!", None), ("[", None), ("x", None)):
        w = assume(hoist(r), starts_at(text))
        for l in leaves(w):
            if l in (DEAD, CONT):
                continue
            if kind is None:
                ctx.ob("no options otherwise", l.op == "adt" and l.a[1] == "None", "a cell starting with `%s` starts options: %s" % (text, show(l, 3)[:80]))
                continue
            t = assume(hoist(E.field(l.a[2], "token")), starts_at(text)) if l.op == "adt" and l.a[1] == "Some" else l
            ctx.ob("start token " + text, t.op == "adt" and t.a[1] == kind, "`%s` is recognised as %s" % (text, show(t, 3)[:80]))
        for l in leaves(assume(hoist(rest), starts_at(text))) if rest is not None else []:
            if l in (DEAD, CONT):
                continue
            b = l
            n = 0
            while n < 9 and b.op in ("idx", "dfld"):
                n += 1
                b = b.a[0] if b.op == "idx" else b.a[0].a[1] if b.a[0].op == "call" and last(b.a[0].a[0]) == "strip_prefix" else mk("other", b)
            ctx.ob("start consumes only its text", b.op == "fld" and b.a[1] == "input", "after a start token the input is %s" % show(l, 4)[:80])
    f = ctx.fn("rest", self_has="CellLexer")
    E = ctx.engine()
    r = ctx.run(E, f, ["self"])
    r = strip_copy(r)
    ctx.ob("rest", r.op == "call" and last(r.a[0]) == "trim" and r.a[1] is fld(sym("self", f.locals[1]), "input"), "the rest of a cell is %s" % show(r, 4)[:80])
    f = ctx.fn("new", self_has="CellLexer")
    E = ctx.engine()
    r = ctx.run(E, f, ["field", "source"])
    ctx.ob("lexer input", E.field(r, "input") is fld(sym("field", f.locals[1]), "value"), "the lexer reads %s" % show(E.field(r, "input"), 3)[:60])


def strip_copy(t):
    while t.op == "call" and last(t.a[0]) in ("to_string", "to_owned", "clone", "into", "from", "to_str"):
        t = t.a[1]
    return t


def chain(ctx):
    # CellParser::parse -> Cell::parse -> Row::parse -> Spreadsheet::parse
    f = ctx.fn("parse", self_has="CellParser")
    E = ctx.engine(opaque=lambda g: g.name in ("parse_cell", "cell_syntax_error"))
    r = ctx.run(E, f, ["field", "row", "source"])
    pc = [e for e in E.events if last(e.path) == "parse_cell"]
    if ctx.ob("cell text parsed", len(pc) == 1 and [show(a) for a in pc[0].args] == ["field", "row", "source"], "parse_cell is not called with the field, row and source"):
        passes(ctx, "cell", r, pc[0])
    f = ctx.fn("parse", self_has="cell::Cell")
    E = ctx.engine(opaque=lambda g: (g.name == "parse" and "CellParser" in (g.self_ty or "")) or "ast_parser" in g.key or g.name == "cell_syntax_error")
    r = ctx.run(E, f, ["field", "row", "source"])
    ps = [e for e in E.events if last(e.path) == "parse" and "CellParser" in e.path]
    ap = [e for e in E.events if last(e.path) == "parse" and "ast_parser" in e.path]
    if ctx.ob("cell options parsed", len(ps) == 1 and [show(a) for a in ps[0].args] == ["field", "row", "source"], "a cell's text is not parsed from its field, row and source"):
        p = ps[0]
        ok = only_true(okd(r))
        ctx.ob("cell errors", not satisfiable(b_and(ok, is_variant(p.ret, RESULT, "Err"))), "an error in a cell is ignored", where(p))
        pv = fld(dfld(p.ret, "Ok"), "parsed_value")
        if ctx.ob("formula parsed", len(ap) == 1 and ap[0].args[0] is pv, "formulas are not parsed from the cell's value"):
            a = ap[0]
            sw = [x for x in atoms_of(a.guard) if x.op == "a.val" and x.a[0].op == "call" and last(x.a[0].a[0]) == "starts_with"]
            good = len(sw) == 1 and sw[0].a[0].a[1] is pv and sw[0].a[0].a[2].op == "c" and sw[0].a[0].a[2].a[1] in ("=", 61)
            if ctx.ob("formula start", good, "a formula is not recognised by a leading `=`", where(a)):
                isf = mk_gate(sw[0], {True: TRUE}, FALSE)
                s, x, y = same_cond(a.guard, isf, is_variant(p.ret, RESULT, "Ok"))
                ctx.ob("formula when =", s, "a formula is parsed " + (diff(x, y) if not s else ""), where(a))
                ctx.ob("formula errors", not satisfiable(b_and(ok, b_and(only_true(a.guard), is_variant(a.ret, RESULT, "Err")))), "a syntax error in a formula is ignored", where(a))
                for l in leaves(r):
                    if not (l.op == "adt" and l.a[1] == "Ok"):
                        continue
                    c = l.a[2]
                    v = E.field(c, "ast")
                    want = ite(isf, mk("adt", OPTION, "Some", dfld(a.ret, "Ok")), mk("adt", OPTION, "None"))
                    s, x, y = same(hoist(v), hoist(want), ok)
                    ctx.ob("formula kept", s, "the formula of a cell is " + (diff(x, y) if not s else ""))
                    for l2 in leaves(c):
                        while l2.op == "with" and l2.a[1] == "ast":
                            l2 = l2.a[0]
                        kept = l2 in (DEAD, CONT) or l2 is dfld(p.ret, "Ok")
                        if l2.op == "adt":  # rebuilt: all other fields copied
                            kept = all(E.field(l2, x) is E.field(dfld(p.ret, "Ok"), x) for x in fields(ctx, "cell::Cell") if x != "ast")
                        ctx.ob("cell kept", kept, "the cell is %s" % show(l2, 3)[:80])
    f = ctx.fn("parse", self_has="row::Row")
    E = ctx.engine(opaque=lambda g: g.name == "parse" and "cell::Cell" in (g.self_ty or ""))
    r = ctx.run(E, f, ["fields", "source"])
    cp = [e for e in E.events if last(e.path) == "parse"]
    if ctx.ob("cells parsed", len(cp) == 1, "cells are parsed at %d places" % len(cp)):
        p = cp[0]
        ctx.ob("each field a cell", p.args[0].op == "elem" and E.isrc(p.args[0].a[0]) is sym("fields", f.locals[1]), "a cell is parsed from %s" % show(p.args[0], 3)[:80], where(p))
        ctx.ob("cells of all fields", no_cond(p.guard), "not every field becomes a cell", where(p))
        oks = [l.a[2] for l in leaves(r) if l.op == "adt" and l.a[1] == "Ok"]
        ctx.floor("rows", len(oks), 1)
        for o in oks:
            e = each_in_order(E, E.field(o, "cells"), sym("fields", f.locals[1]))
            ctx.ob("row: a cell per field", e is dfld(p.ret, "Ok"), "the cells of a row are %s" % show(E.field(o, "cells"), 3)[:100])
            for fl in fields(ctx, "row::Row"):
                if fl == "cells":
                    continue
                v = E.field(o, fl)
                ctx.ob("row keeps " + fl, v.op == "fld" and v.a[1] == fl and v.a[0].op == "rec" and v.a[0] is p.args[1], "the row's %s is %s, not what its options said" % (fl, show(v, 3)[:80]))
        ctx.ob("row shared", p.args[1].op == "rec" and starts_default(E, p.args[1]), "cells do not share a row that starts without options", where(p))
        fails(ctx, E, "row", r, p)
    f = ctx.fn("parse", self_has="spreadsheet::Spreadsheet")
    E = ctx.engine(opaque=lambda g: (g.name == "parse" and "row::Row" in (g.self_ty or "")) or g.key.startswith("csvp::") or g.name == "csv_error_to_parse_error")
    r = ctx.run(E, f, ["source"])
    src = sym("source", f.locals[1])
    cs = [e for e in E.events if e.path.split("<")[0].endswith("parser::parse") and "csvp" in (e.path + e.raw) and e.args and e.args[0] is fld(src, "csv_section")]
    cs = cs or [e for e in E.events if last(e.path) == "parse" and e.args and e.args[0] is fld(src, "csv_section")]
    rp = [e for e in E.events if last(e.path) == "parse" and e not in cs]
    if ctx.ob("csv section parsed", len(cs) == 1 and len(rp) == 1, "the csv section is not parsed into rows"):
        c, p = cs[0], rp[0]
        recs = dfld(c.ret, "Ok")
        ctx.ob("csv options", E.field(c.args[1], "separator").op == "c" and chr_is(E.field(c.args[1], "separator"), ","), "the separator is %s" % show(E.field(c.args[1], "separator"), 2))
        ctx.ob("each record a row", p.args[0].op == "elem" and E.isrc(p.args[0].a[0]) is recs and p.args[1] is src, "a row is parsed from %s" % show(p.args[0], 3)[:80], where(p))
        for l in leaves(r):
            if l.op == "adt" and l.a[1] == "Ok":
                e = each_in_order(E, E.field(l.a[2], "rows"), recs)
                ctx.ob("a row per record", e is dfld(p.ret, "Ok"), "the rows are %s" % show(E.field(l.a[2], "rows"), 3)[:100])
                ctx.ob("not yet filled", E.field(l.a[2], "fills_expanded") is FALSE, "fills count as expanded")
        ok = only_true(okd(r))
        ctx.ob("csv errors", not satisfiable(b_and(ok, is_variant(c.ret, RESULT, "Err"))), "an error in the csv section is ignored", where(c))
        fails(ctx, E, "sheet", r, p)


def chr_is(t, ch):
    return t.a[1] in (ch, ord(ch))


def no_cond(g):
    """only the iteration itself stands between the loop and the call"""
    for a in atoms_of(g):
        if not (a.op == "a.disc" and (a.a[0].op == "next" or (a.a[0].op == "call" and last(a.a[0].a[0]) == "next"))):
            return False
    return True


def starts_default(E, rec):
    i = E.rec_info[rec.id][0]
    if i.op == "call" and last(i.a[0]) == "default":
        return True
    if i.op != "adt":
        return False
    return True


def passes(ctx, key, r, e):
    ok = only_true(okd(r))
    s, a, b = same_cond(ok, is_variant(e.ret, RESULT, "Ok"))
    ctx.ob(key + ": errors", s, "succeeds " + (diff(a, b) if not s else ""), where(e))
    for l in leaves(r):
        if l.op == "adt" and l.a[1] == "Ok":
            ctx.ob(key + ": result", l.a[2] is dfld(e.ret, "Ok"), "the result is %s" % show(l.a[2], 3)[:80], where(e))


def fails(ctx, E, key, r, p):
    """an Err of p ends the loop with an error"""
    errs = [l for l in leaves(r) if l.op == "adt" and l.a[1] == "Err" and l.a[2] is dfld(p.ret, "Err")]
    ctx.ob(key + ": first error returned", bool(errs), "an error in a %s is not returned" % key, where(p))
    ctx.ob(key + ": error stops", not goes_on(E, p, is_variant(p.ret, RESULT, "Err")), "reading goes on after an error in a %s" % key, where(p))


def check(ctx):
    parse_cell(ctx)
    option_list(ctx)
    start(ctx)
    chain(ctx)
