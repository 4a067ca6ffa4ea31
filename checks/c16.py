"""C16: rows repeated by fills."""
from sa.q import *
from sa.terms import *
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, drop, empty

TITLE = "A filled row is repeated exactly as often as asked for, in its place"
RULE = ("The expansion of fills is evaluated on a sheet of unknown rows: the state of its loop over rows after a row without a fill, with a counted and with an uncounted fill, the number of "
        "copies, every field of a copy, the range recorded in it, and the state machine that rejects a second uncounted fill are compared with the specified ones.")


def live(d):
    return [l for l in leaves(d) if l not in (DEAD, CONT)]


def top(d, t, v):
    """d where t is v, its leaves untouched"""
    if d.op == "gate":
        a, ls, ks, dflt = d.a
        if a.op == "a.disc" and a.a[0] is t:
            return top(dict(zip(ls, ks)).get(v, dflt), t, v)
        ks2 = {l: top(k, t, v) for l, k in zip(ls, ks)}
        return ordered_gate(a, ks2, top(dflt, t, v) if dflt is not None else None)
    return d


def nexts(E, t, lid, v):
    """t with the iterator of loop lid at `v`"""
    def f(a):
        if a.op == "a.disc" and a.a[0].op == "next":
            q = a.a[0].a[0]
            if q.op == "rec" and tuple(q.a[:len(lid)]) == tuple(lid):
                return v
    return assume(t, f)


def count(r, E):
    """the number of iterations of a loop over r, as a term"""
    if r.op == "adt" and last(r.a[0]) == "Range" and r.a[2] is c_int(0):
        return r.a[3]
    return None


def check(ctx):
    f = ctx.fn("eval_fills", self_has="Spreadsheet")
    E = ctx.engine()
    r = ctx.run(E, f, ["sheet"])
    sheet = sym("sheet", f.locals[1])
    rows = E.field(sheet, "rows")
    done = E.field(sheet, "fills_expanded")

    def expanded(t, v):
        return assume(t, lambda a: v if a.a[0] is done else None)
    oks = live(expanded(r, True))
    ctx.ob("again: nothing happens", bool(oks) and all(l.op == "adt" and l.a[1] == "Ok" and same_sheet(E, l.a[2], sheet) for l in oks), "a sheet whose fills are expanded is changed: %s" % [show(l, 3)[:100] for l in oks][:1])
    d = expanded(r, False)
    good = {l.a[2] for l in live(d) if l.op == "adt" and l.a[1] == "Ok"}
    if not ctx.ob("result", len(good) == 1 and next(iter(good)).op == "adt", "the expanded sheet is %s" % [show(g, 3)[:80] for g in good][:2]):
        return
    s = next(iter(good))
    ctx.ob("result: marked as expanded", E.field(s, "fills_expanded") is TRUE, "an expanded sheet is expanded again")
    R = drop(E.field(s, "rows"))
    if R.op != "rec" or R.id not in E.rec_info:
        raise Missing("the rows are collected in a loop")
    lid = tuple(R.a[:3])
    init, step = E.rec_info[R.id][:2]
    ctx.ob("rows: none at first", empty(init), "the expanded rows start as %s" % show(init, 3)[:80])
    it = [i for i in E.rec_info.values() if len(i) > 3 and tuple(i[3].a[:3]) == lid and i[1].op == "upd" and last(i[1].a[0]) == "next"]
    ctx.ob("rows: each of them", len(it) == 1 and drop(E.isrc(it[0][0]) if E.isrc(it[0][0]) is not None else it[0][0]) is rows, "the rows looped over are %s" % [show(i[0], 3)[:80] for i in it])
    row = [t for t in subterms(step) if t.op == "elem" and (t.a[0] is rows or E.isrc(t.a[0]) is rows)]
    if not row:
        raise Missing("the rows of the sheet")
    row = row[0]
    fill = E.field(row, "fill")
    body = nexts(E, step, lid, "Some")
    latch = nexts(E, E.latch[lid], lid, "Some")
    # no fill
    one = drop(pin_disc(body, fill, "None"))
    ctx.ob("no fill: once, as it is", one.op == "upd" and last(one.a[0]) == "push" and one.a[2] is R and one.a[3] is row, "a row without a fill becomes %s" % show(one, 4)[:140])
    ctx.ob("no fill: goes on", live(pin_disc(latch, fill, "None")) == [TRUE], "the rows after a row without a fill are lost")
    # fills
    amount = E.field(dfld(fill, "Some"), "amount")
    fd = pin_disc(body, fill, "Some")
    inner = [t for t in subterms(fd) if t.op == "rec" and t.id in E.rec_info and tuple(t.a[:3]) != lid and E.rec_info[t.id][0] is R]
    ext = [t for t in live(fd) if t.op == "upd" and last(t.a[0]) == "extend" and t.a[2] is R]
    copy = n = at = None
    if inner:
        I = inner[0]
        il = tuple(I.a[:3])
        fd = nexts(E, fd, il, "None")
        ctx.ob("fill: the copies are the rows", live(fd) == [I], "after a fill the rows are %s" % show(fd, 3)[:100])
        its = [i for i in E.rec_info.values() if len(i) > 3 and tuple(i[3].a[:3]) == il and i[1].op == "upd" and last(i[1].a[0]) == "next"]
        n = count(its[0][0], E) if len(its) == 1 else None
        st = drop(nexts(E, E.rec_info[I.id][1], il, "Some"))
        ctx.ob("fill: one row per repetition", st.op == "upd" and last(st.a[0]) == "push" and st.a[2] is I, "a repetition turns the rows into %s" % show(st, 3)[:100])
        copy = st.a[3] if st.op == "upd" and len(st.a) == 4 else None
        lt = nexts(E, E.latch[il], il, "Some")
        ctx.ob("fill: every repetition", live(pin_disc(lt, fill, "Some")) == [TRUE], "the repetition of a row ends early")
        ctx.ob("fill: goes on", TRUE in leaves(nexts(E, pin_disc(latch, fill, "Some"), il, "None")) and FALSE not in leaves(nexts(E, pin_disc(latch, fill, "Some"), il, "None")), "the rows after a filled row are lost")
        at = inner
    elif ext:
        x = ext[0].a[3]
        # extend(repeat(copy).take(n))
        tk = [t for t in subterms(x) if t.op in ("take", "call") and (t.op == "take" or last(t.a[0]) in ("take", "repeat_n"))]
        if tk:
            n = tk[0].a[-1]
            rp = [t for t in subterms(tk[0]) if t.op == "call" and last(t.a[0]) in ("repeat", "repeat_n")]
            copy = rp[0].a[1] if rp else None
        elif x.op == "coll":
            n = count(x.a[0], E)
            copy = x.a[1]
    if copy is None or n is None:
        raise Missing("the copies of a filled row and their number")
    # the number
    turn = lambda t: assume(nexts(E, t, lid, "Some"), lambda a: "Some" if a is atom_disc(fill, OPTION) else None)
    nn = n = turn(n)
    copy = turn(copy)
    some_n = drop(pin_disc(nn, amount, "Some"))
    ctx.ob("number: as given", some_n is dfld(amount, "Some"), "a fill of N repeats its row %s times" % show(some_n, 4)[:100])
    left = drop(top(nn, amount, "None"))
    rest(ctx, E, left, rows)
    # the copy
    fields = fields_of("csvpp::row::Row", "Row") or fields_of("csvpp::row::Row", variants_of("csvpp::row::Row")[0])
    ctx.floor("fields of a row", len(fields), 15)
    for x in fields:
        if x != "fill":
            v = drop(E.field(copy, x))
            ctx.ob("copy: " + x, v is E.field(row, x), "the %s of a repeated row is %s" % (x, show(v, 4)[:100]))
    F = drop(E.field(copy, "fill"))
    F = F.a[2] if F.op == "adt" and F.a[1] == "Some" else F
    sr = row_number(drop(E.field(F, "start_row")))
    N = [i for i in E.rec_info.values() if len(i) > 3 and tuple(i[3].a[:3]) == lid and i[0] is c_int(0)]
    ok = sr is mk("call", "len", R)
    if sr is not None and sr.op == "rec" and tuple(sr.a[:3]) == lid:
        ok = counts(ctx, E, sr, lid, fill, at, n, turn)
    ctx.ob("copy: range starts at the first", ok, "the range of a fill starts at %s" % (show(sr, 3)[:100] if sr is not None else show(E.field(F, "start_row"), 4)[:100]))
    am = drop(E.field(F, "amount"))
    if am.op == "gate":
        sn = drop(pin_disc(am, amount, "Some"))
        nl = drop(top(am, amount, "None"))
    else:
        sn = nl = am
    val = lambda t: t.a[2] if t.op == "adt" and t.a[1] == "Some" else t
    ok1 = drop(pin_disc(val(sn), amount, "Some")) is some_n or (sn is amount)
    ok2 = nl.op == "adt" and nl.a[1] == "Some" and drop(top(nl.a[2], amount, "None")) is left
    ctx.ob("copy: range of a counted fill", ok1, "the range of a fill of N has %s rows" % show(sn, 4)[:100])
    ctx.ob("copy: range of an uncounted fill", ok2, "the range of an uncounted fill has %s rows" % show(nl, 4)[:100])
    second(ctx, E, d, sheet, rows)
    before(ctx)


def row_number(t):
    """the index a row is made of"""
    while t.op in ("call", "adt", "cast"):
        if t.op == "adt" and last(t.a[0]) == "Row" and len(t.a) == 3:
            t = t.a[2]
        elif t.op == "adt" and last(t.a[0]) == "Row":
            ns = [x for x in t.a[2:] if isinstance(x, T) and x not in (TRUE, FALSE)]
            if len(ns) != 1:
                return None
            t = ns[0]
        elif t.op == "call" and last(t.a[0]) in ("from", "into", "new") and len(t.a) == 2:
            t = t.a[1]
        else:
            return t
    return t


def counts(ctx, E, c, lid, fill, inner, number, turn):
    """c counts the rows pushed: it starts at 0 and grows by one per push, on every path"""
    init, step = E.rec_info[c.id][:2]
    if init is not c_int(0):
        return False
    plus = lambda t, o: t.op == "bin" and t.a[0] in ("Add", "AddUnchecked") and (list(t.a[1:]) in ([o, c_int(1)], [c_int(1), o]))
    s = nexts(E, step, lid, "Some")
    one = drop(pin_disc(s, fill, "None"))
    ok = plus(one, c)
    more = pin_disc(s, fill, "Some")
    if inner:
        il = tuple(inner[0].a[:3])
        more = drop(nexts(E, more, il, "None"))
    if inner and more.op == "rec":
        ok = ok and more.op == "rec" and tuple(more.a[:3]) == il
        if ok:
            i, st = E.rec_info[more.id][:2]
            ok = i is c and plus(drop(nexts(E, st, il, "Some")), more)
    else:
        amount = E.field(dfld(fill, "Some"), "amount")
        for v in ("Some", "None"):
            m = drop(pin_disc(more, amount, v))
            m = drop(turn(m))
            ok = ok and m.op == "bin" and m.a[0].startswith("Add") and c in m.a and drop(pin_disc(number, amount, v)) in [drop(turn(pin_disc(x, amount, v))) for x in m.a[1:]]
    return ok


def same_sheet(E, t, sheet):
    if t is sheet:
        return True
    return t.op == "adt" and all(drop(E.field(t, n)) is E.field(sheet, n) or (n == "fills_expanded" and E.field(t, n) is TRUE) for n in ("rows", "fills_expanded"))


def rest(ctx, E, left, rows):
    """1000 less the rows all others take"""
    ok = left.op == "call" and last(left.a[0]) == "saturating_sub" and left.a[1] is c_int(1000)
    if not ctx.ob("number: the rest of 1000 rows", ok, "an uncounted fill repeats its row %s times" % show(left, 4)[:140]):
        return
    t = left.a[2]
    one = some_n = none_n = None
    if t.op == "rec" and t.id in E.rec_info:
        init, step = E.rec_info[t.id][:2]
        ctx.ob("number: others start at none", init is c_int(0), "the count of the other rows starts at %s" % show(init, 3)[:60])
        add = lambda l: [x for x in l.a[1:] if x is not t] if l.op == "bin" and l.a[0].startswith("Add") and t in l.a else [c_int(0)] if l is t else None
        el = [x for x in subterms(step) if x.op == "elem"]
        row = el[0] if el else None
        if row is None:
            raise Missing("the rows counted")
        src = row.a[0]
        src = E.isrc(src) if E.isrc(src) is not None else src
        ctx.ob("number: all other rows", src is rows or src.op == "ref" or drop(src) is rows, "the rows counted are %s" % show(src, 3)[:80])
        lid = tuple(t.a[:3])
        st = assume(step, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None)
        step = lambda l: add(l)
        val = lambda d: add(drop(d)) if add(drop(d)) else None
    elif t.op == "call" and last(t.a[0]) == "sum" and len(t.a) == 4:
        if t.a[3] is not TRUE:
            raise Missing("the number of rows of the others")
        st = next((x.a[2] for x in E.aggregates if x.a[0] == t.a[0] and x.a[1] is t.a[1]), t.a[2])       # (the row being expanded is an element of the same rows)
        row = next((x for x in subterms(st) if x.op == "elem"), None)
        src = E.isrc(t.a[1]) if E.isrc(t.a[1]) is not None else t.a[1]
        ctx.ob("number: all other rows", src is rows or src.op == "ref", "the rows counted are %s" % show(src, 3)[:80])
        val = lambda d: [drop(d)]
    else:
        raise Missing("the number of rows of the others: %s" % show(t, 3)[:80])
    fill = E.field(row, "fill")
    amount = E.field(dfld(fill, "Some"), "amount")
    for name, d, want in (("no fill", pin_disc(st, fill, "None"), c_int(1)),
                          ("a counted fill", pin_disc(pin_disc(st, fill, "Some"), amount, "Some"), dfld(amount, "Some")),
                          ("the uncounted fill", pin_disc(pin_disc(st, fill, "Some"), amount, "None"), c_int(0))):
        v = val(d)
        if v:
            v = [drop(pin_disc(pin_disc(pin_disc(x, fill, "None" if name == "no fill" else "Some"), amount, "Some" if "a counted" in name else "None"), fill, "None" if name == "no fill" else "Some")) for x in v]
        ctx.ob("number: a row with %s counts" % name, v == [want], "a row with %s counts as %s rows" % (name, [show(x, 4)[:60] for x in v or []]))


def second(ctx, E, d, sheet, rows):
    """Err iff an uncounted fill was seen before another one"""
    bad = [l for l in live(d) if l.op == "adt" and l.a[1] == "Err"]
    if not ctx.ob("second uncounted fill: an error", bool(bad), "two fills without an amount are accepted"):
        return
    # the flag: a bool carried round a loop over the rows
    flags = [i for i in E.rec_info.values() if len(i) > 3 and i[0] is FALSE]
    found = False
    for i in flags:
        c, st = i[3], i[1]
        lid = tuple(c.a[:3])
        el = [x for x in subterms(E.latch[lid]) if x.op == "elem"] + [x for x in subterms(st) if x.op == "elem"]
        if not el:
            continue
        fill = E.field(el[0], "fill")
        amount = E.field(dfld(fill, "Some"), "amount")
        lt = nexts(E, E.latch[lid], lid, "Some")
        st = nexts(E, st, lid, "Some")
        flag = lambda t, v: assume(t, lambda a: v if a.a[0] is c else None)
        infinite = lambda t: pin_disc(pin_disc(t, fill, "Some"), amount, "None")
        ok = live(infinite(st)) == [TRUE] or live(flag(infinite(st), False)) == [TRUE]
        ctx.ob("second uncounted fill: the first is remembered", ok, "the first uncounted fill is forgotten")
        for n, t, l in (("no fill", pin_disc(st, fill, "None"), pin_disc(lt, fill, "None")), ("a counted fill", pin_disc(pin_disc(st, fill, "Some"), amount, "Some"), pin_disc(pin_disc(lt, fill, "Some"), amount, "Some"))):
            ctx.ob("second uncounted fill: %s" % n, live(t) == [c] and live(l) == [TRUE], "a row with %s changes what is known about fills before it" % n)
        ctx.ob("second uncounted fill: the first goes on", live(flag(infinite(lt), False)) == [TRUE], "the rows after the first uncounted fill are not looked at")
        ctx.ob("second uncounted fill: found", live(flag(infinite(lt), True)) == [FALSE], "a second uncounted fill is not noticed")
        e = nexts(E, d, lid, "Some")
        er = live(flag(infinite(e), True))
        ctx.ob("second uncounted fill: reported", bool(er) and all(l.op == "adt" and l.a[1] == "Err" for l in er), "a second uncounted fill is not reported")
        ctx.ob("one uncounted fill: no error", not any(l.op == "adt" and l.a[1] == "Err" for x in (flag(infinite(e), False), pin_disc(e, fill, "None"), nexts(E, d, lid, "None")) for l in live(x)), "a sheet with one uncounted fill is rejected")
        src = E.isrc(el[0].a[0]) if E.isrc(el[0].a[0]) is not None else el[0].a[0]
        ctx.ob("second uncounted fill: in all rows", src is rows or src.op == "ref" or drop(src) is rows, "uncounted fills are looked for in %s" % show(src, 3)[:80])
        found = True
        break
    if not found:
        # counted: filter(..).count() > 1
        cs = [t for t in subterms(d) if t.op == "call" and last(t.a[0]) == "count" and len(t.a) == 4]
        ok = False
        for t in cs:
            c = t
            el = [x for x in subterms(c.a[3]) if x.op == "elem"]
            if not el:
                continue
            fill = E.field(el[0], "fill")
            amount = E.field(dfld(fill, "Some"), "amount")
            cond = c.a[3]
            ok = live(pin_disc(pin_disc(cond, fill, "Some"), amount, "None")) == [TRUE] and live(pin_disc(cond, fill, "None")) == [FALSE] and live(pin_disc(pin_disc(cond, fill, "Some"), amount, "Some")) == [FALSE]
            gt = [a for a in subterms(d) if a.op.startswith("a.") and a.a[0].op == "bin" and t in a.a[0].a]
            ok = ok and any((a.a[0].a[0], a.a[0].a[1:]) in (("Gt", (t, c_int(1))), ("Ge", (t, c_int(2))), ("Lt", (c_int(1), t)), ("Le", (c_int(2), t))) for a in gt)
        ctx.ob("second uncounted fill: noticed", ok, "how a second uncounted fill is noticed could not be established")


LOADS = ("load_from_source_from_filename", "load_from_cache_from_filename")


def evaluation(ctx):
    """The function in which the main module is evaluated: one of the compiler's own which gets the module, or compile itself."""
    own = ctx.fns(lambda g: g.name == "eval" and "Compiler" in (g.self_ty or ""))
    return (own[0], ["compiler", "main"]) if own else (ctx.fn("compile", self_has="Compiler"), ["compiler"])


def before(ctx):
    """Fills are expanded before anything is evaluated, and errors of it are returned."""
    at, names = evaluation(ctx)
    E = ctx.engine(opaque=lambda g: g.name in ("eval_fills", "eval_spreadsheet", "eval_error", "load_main", "write_object_file") + LOADS and g.key.startswith("csvpp"))
    r = ctx.run(E, at, names)
    main = sym("main", at.locals[2]) if len(names) == 2 else None
    for e in E.events:
        if main is None and last(e.path) == "load_main":
            main = dfld(e.ret, "Ok")
            need = E.field(main, "needs_eval")
            r = assume(r, lambda a: True if a.op == "a.val" and a.a[0] is need else None)
    fe = [e for e in E.events if last(e.path) == "eval_fills"]
    se = [e for e in E.events if last(e.path) == "eval_spreadsheet"]
    if ctx.ob("main: fills, then cells", len(fe) == 1 and len(se) == 1, "evaluation of the main module calls %s" % [last(e.path) for e in E.events][:6]):
        ctx.ob("main: the module", main is not None and drop(fe[0].args[0]) is main, "the fills of %s are expanded" % show(fe[0].args[0], 3)[:80])
        ctx.ob("main: the expanded sheet is evaluated", drop(se[0].args[0]) is dfld(fe[0].ret, "Ok"), "what is evaluated is %s" % show(se[0].args[0], 3)[:80])
        bad = live(pin_disc(r, fe[0].ret, "Err"))
        ctx.ob("main: errors of fills", bool(bad) and all(l.op == "adt" and l.a[1] == "Err" for l in bad), "an error of a fill is ignored")
    g = ctx.fn("eval_fills", self_has="Module")
    E = ctx.engine(opaque=lambda h: (h.name == "eval_fills" and "Spreadsheet" in (h.self_ty or "")) or h.name == "eval_error")
    r = ctx.run(E, g, ["module"])
    e = [x for x in E.events if last(x.path) == "eval_fills"]
    m = sym("module", g.locals[1])
    if ctx.ob("module: its sheet's fills", len(e) == 1 and e[0].args[0] is E.field(m, "spreadsheet"), "the fills expanded are not the module's"):
        ok = [l for l in live(pin_disc(r, e[0].ret, "Ok")) if l.op == "adt" and l.a[1] == "Ok"]
        ctx.ob("module: with the expanded sheet", bool(ok) and all(drop(E.field(drop(pin_disc(l.a[2], e[0].ret, "Ok")), "spreadsheet")) is dfld(e[0].ret, "Ok") or
                                                                 drop(pin_disc(E.field(l.a[2], "spreadsheet"), e[0].ret, "Ok")) is dfld(e[0].ret, "Ok") for l in ok), "the module keeps another sheet")
        for n in ("scope", "source_code", "required_modules", "module_path"):
            ctx.ob("module: " + n, all(drop(E.field(l.a[2], n)) is E.field(m, n) for l in ok), "expanding fills changes the module's %s" % n)
        bad = live(pin_disc(r, e[0].ret, "Err"))
        ctx.ob("module: errors of fills", bool(bad) and all(l.op == "adt" and l.a[1] == "Err" for l in bad), "an error of a fill is ignored")
