"""C22: what variables bound to cells and rows stand for."""
from sa.q import *
from checks.c16 import evaluation, LOADS
from sa.terms import *
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, drop, empty
from checks.c17 import node_of
from checks.c16 import live, nexts, row_number

TITLE = "A variable bound to a cell or row stands for exactly that cell, column of the fill, or row"
RULE = ("For every kind of value a variable can have and for a position inside and outside of its fill, the reference made of it is compared with the documented one (rows as linear forms over "
        "the fill's start and length); the binding of variables to cells and rows, the position a cell is evaluated at and the scope it is evaluated in are compared with the cell's place in the sheet.")


def lin(t):
    """A row number as a linear form: ({term: coefficient}, constant), or None"""
    if isinstance(t, int):
        return {}, t
    if t.op == "c" and isinstance(t.a[1], int):
        return {}, t.a[1]
    if t.op == "bin" and t.a[0] in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
        x, y = lin(t.a[1]), lin(t.a[2])
        s = 1 if t.a[0].startswith("Add") else -1
    elif t.op == "call" and last(t.a[0]) in ("shift_up", "shift_down") and len(t.a) == 3:
        x, y = lin(t.a[1]), lin(t.a[2])
        s = -1 if last(t.a[0]) == "shift_up" else 1
    elif t.op == "call" and last(t.a[0]) in ("saturating_sub", "saturating_add") and len(t.a) == 3:
        x, y = lin(t.a[1]), lin(t.a[2])
        s = 1 if last(t.a[0]).endswith("add") else -1
    else:
        r = row_number(t) if t.op in ("call", "adt") else t
        if r is not None and r is not t:
            return lin(r)
        if t.op == "fld" and t.a[1] == "y":
            t = t.a[0]
        return {t: 1}, 0
    if x is None or y is None:
        return None
    d = dict(x[0])
    for k, v in y[0].items():
        d[k] = d.get(k, 0) + s * v
    return {k: v for k, v in d.items() if v}, x[1] + s * y[1]


def reference(t):
    """what a reference node is printed from: (type, value)"""
    n = node_of(t)
    if n.op == "adt" and n.a[1] == "Reference":
        ps = pieces(n.a[2])
        if len(ps) == 1 and not isinstance(ps[0], str):
            return ps[0]
    return None


def into_row(t):
    """the row an A1 of one row is made of"""
    if t.op == "call" and "Into" in t.a[0] and len(t.a) == 2 or t.op == "call" and last(t.a[0]) in ("into", "from", "row") and len(t.a) == 2:
        return t.a[1]
    if t.op == "call" and last(t.a[0]) == "row_range" and t.a[1] is t.a[2]:
        return t.a[1]
    return None


def is_range(ctx, E, t, fill, what):
    """t: the rows start .. start + amount - 1 of the fill"""
    ok = t.op == "call" and last(t.a[0]) == "row_range"
    if not ctx.ob(what + ": rows", ok, "%s: %s is no range of rows" % (what, show(t, 4)[:120])):
        return
    start = E.field(fill, "start_row")
    amount = E.field(fill, "amount")
    a, b = lin(t.a[1]), None
    ctx.ob(what + ": first row", a == ({start: 1}, 0), "%s starts at %s" % (what, show(t.a[1], 5)[:120]))
    b = lin(drop(pin_disc(t.a[2], amount, "Some")))
    ctx.ob(what + ": last row", b == ({start: 1, dfld(amount, "Some"): 1}, -1), "%s ends at %s" % (what, show(drop(pin_disc(t.a[2], amount, "Some")), 6)[:120]))


def check(ctx):
    values(ctx)
    bound(ctx)
    positions(ctx)
    scope(ctx)


def values(ctx):
    f = ctx.fn("into_ast")
    E = ctx.engine()
    r = ctx.run(E, f, ["value", "position"])
    v, p = [sym(n, f.locals[i + 1]) for i, n in enumerate(("value", "position"))]
    pos = dfld(p, "Some")
    adt = next(k for k in ctx.F.adts if k.startswith("csvpp") and k.endswith("::VariableValue"))
    kinds = variants_of(adt)
    ctx.floor("kinds of variables", len(kinds), 5)
    for at in ("Some", "None"):
        d = pin_disc(r, p, at)
        for k in kinds:
            x = pin_disc(d, v, k)
            w = "%s %s" % (k, "in a cell" if at == "Some" else "outside the sheet")
            if k == "Ast":
                ctx.ob(w, drop(x) is dfld(v, k), "an expression's variable is %s" % show(x, 4)[:120])
            elif k == "Absolute":
                q = reference(drop(x))
                ctx.ob(w, q is not None and q[2] is dfld(v, k), "a cell's variable is %s" % show(x, 5)[:120])
            elif k == "Row":
                q = reference(drop(x))
                ctx.ob(w, q is not None and (into_row(q[2]) is dfld(v, k) or q[2] is dfld(v, k)), "a row's variable is %s" % show(x, 6)[:120])
            elif at == "Some":
                fill = dfld(v, k, "fill")
                tests = {a.a[0] for a in subterms(x) if a.op.startswith("a.") and a.a[0].op == "call" and last(a.a[0].a[0]) == "contains"}
                if not ctx.ob(w + ": by place", len(tests) == 1, "%s does not depend on whether the cell is in the fill" % w):
                    continue
                t = next(iter(tests))
                is_range(ctx, E, drop(t.a[1]), fill, w + ": the fill")
                c = t.a[2]
                c = c.a[1] if c.op == "call" and len(c.a) == 2 else c
                ctx.ob(w + ": the place", c is pos, "the place looked for in the fill is %s" % show(t.a[2], 4)[:100])
                yes, no = [reference(drop(assume(x, lambda a: b if a.a[0] is t else None))) for b in (True, False)]
                if not ctx.ob(w + ": a reference", yes is not None and no is not None, "%s becomes %s" % (w, show(x, 5)[:160])):
                    continue
                if k == "ColumnRelative":
                    col = E.field(dfld(v, k, "column"), "x")
                    ok = yes[2].op == "call" and (last(yes[2].a[0]) == "with_x" and yes[2].a[1] is pos and yes[2].a[2] is col)
                    ok = ok or yes[2].op == "call" and last(yes[2].a[0]) == "new" and yes[2].a[1] is col and lin(yes[2].a[2]) in (({E.field(pos, "row"): 1}, 0),)
                    ctx.ob(w + ": in the fill", ok, "within the fill it stands for %s" % show(yes[2], 5)[:120])
                    ok = no[2].op == "call" and last(no[2].a[0]) == "with_x" and no[2].a[2] is col
                    if ctx.ob(w + ": outside of the fill", ok, "outside of the fill it stands for %s" % show(no[2], 5)[:120]):
                        is_range(ctx, E, drop(no[2].a[1]), fill, w + ": the range")
                else:
                    q = into_row(yes[2])
                    ctx.ob(w + ": in the fill", q is E.field(pos, "row"), "within the fill it stands for %s" % show(yes[2], 5)[:120])
                    is_range(ctx, E, drop(no[2]), fill, w + ": the range")


def bound(ctx):
    """Which variables the cells and rows of a sheet define."""
    f = ctx.fn("variables", self_has="Spreadsheet")
    E = ctx.engine()
    r = ctx.run(E, f, ["sheet"])
    sheet = sym("sheet", f.locals[1])
    rows = E.field(sheet, "rows")
    ins = [e for e in E.events if last(e.path) == "insert" and e.loops]
    row = cell = None
    for e in ins:
        for t in subterms(e.args[2]):
            if t.op == "elem":
                s = E.isrc(t.a[0]) if E.isrc(t.a[0]) is not None else t.a[0]
                if s is rows:
                    row = t
                elif row is not None and s is E.field(row, "cells") or s.op == "fld" and s.a[1] == "cells":
                    cell = t
    if row is None or cell is None:
        raise Missing("the rows and cells whose variables are collected")
    rp, cp = mk("pos", rows), mk("pos", E.field(row, "cells"))
    ctx.ob("variables: of rows and cells", len(ins) == 2, "variables are defined at %d places" % len(ins))
    fill = E.field(row, "fill")
    for what, owner, near, far in (("row", row, "RowRelative", "Row"), ("cell", cell, "ColumnRelative", "Absolute")):
        name = E.field(owner, "var")
        es = [e for e in ins if drop(e.args[1]) is dfld(name, "Some")]
        if not ctx.ob("%s: under its name" % what, len(es) == 1, "the variable of a %s is defined %d times" % (what, len(es))):
            continue
        e = es[0]
        g = every(e.guard)
        ctx.ob("%s: iff it has one" % what, live(pin_disc(g, name, "Some")) == [TRUE] and live(pin_disc(g, name, "None")) == [FALSE], "the variable of a %s is defined under other conditions than having one" % what)
        for lid in E.latch:
            ctx.ob("%s: all of them" % what, live(alln(E, E.latch[lid], lid)) == [TRUE], "the %ss after some are not looked at" % what)
        n = node_of(every(pin_disc(e.args[2], name, "Some")))
        for k, fv in ((near, "Some"), (far, "None")):
            m = node_of(drop(every(pin_disc(n, fill, fv))))
            ok = m.op == "adt" and m.a[1] == "Variable"
            val = drop(every(pin_disc(E.field(m, "value"), fill, fv))) if ok else None
            w = "%s %s a fill" % (what, "in" if fv == "Some" else "outside of")
            if not ctx.ob(w + ": kind", ok and val.op == "adt" and val.a[1] == k, "the variable of a %s is %s" % (w, show(m, 5)[:120])):
                continue
            if k in ("RowRelative", "ColumnRelative"):
                ctx.ob(w + ": its fill", drop(E.field(val, "fill")) is dfld(fill, "Some"), "the variable of a %s is relative to %s" % (w, show(E.field(val, "fill"), 4)[:80]))
            if k == "Row":
                ctx.ob(w + ": its row", lin(val.a[2]) == ({rp: 1}, 0), "the variable of a %s is row %s" % (w, show(val.a[2], 4)[:80]))
            if k in ("ColumnRelative", "Absolute"):
                a = val.a[2] if k == "Absolute" else E.field(val, "column")
                a = a.a[0] if a.op == "fld" and a.a[1] == "column" else a
                ok = a.op == "call" and last(a.a[0]) == "new" and len(a.a) == 3 and a.a[1] is cp and lin(a.a[2]) == ({rp: 1}, 0)
                ok = ok or k == "ColumnRelative" and (a is cp or a.op == "call" and len(a.a) == 2 and a.a[1] is cp)
                ctx.ob(w + ": its place", ok, "the variable of a %s is at %s" % (w, show(a, 4)[:80]))
    # nothing else happens to the map
    m = drop(r)
    seen = set()
    while m.op == "rec" and m.id in E.rec_info and m not in seen:
        seen.add(m)
        i, st = E.rec_info[m.id][:2]
        ls = {l for t in (i, every(st)) for l in live(every(t))}
        ok = all(l in seen or empty(l) or l.op == "rec" or l.op == "upd" and last(l.a[0]) == "insert" for l in ls)
        ctx.ob("variables: kept", ok, "the variables collected are changed to %s" % [show(l, 3)[:80] for l in ls if l.op not in ("rec", "upd")][:2])
        nx = [l for l in ls if l.op == "rec" and l not in seen] + [l.a[2] for l in ls if l.op == "upd" and l.a[2].op == "rec" and l.a[2] not in seen]
        if not nx:
            break
        m = nx[0]


def every(t):
    return assume(t, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None)


def alln(E, t, lid):
    """within an iteration of loop lid, inner loops over"""
    def f(a):
        if a.op == "a.disc" and a.a[0].op == "next":
            q = a.a[0].a[0]
            return "Some" if q.op == "rec" and tuple(q.a[:len(lid)]) == tuple(lid) else "None"
    return assume(t, f)


def positions(ctx):
    """Every cell is evaluated at its own place, once, and only its formula changes."""
    f = ctx.fn("eval", self_has="row::Row")
    E = ctx.engine(opaque=lambda g: g.name in ("eval", "eval_error") and g.key.startswith("csvpp"))
    names = ["row", "source", "scope", "at"]
    r = ctx.run(E, f, names)
    row, source, scope_, at = [sym(n, f.locals[i + 1]) for i, n in enumerate(names)]
    cells = E.field(row, "cells")
    evs_ = [e for e in E.events if last(e.path) == "eval"]
    if not ctx.ob("cells: evaluated", len(evs_) == 1, "formulas are evaluated at %d places" % len(evs_)):
        return
    e = evs_[0]
    a = e.args[0]
    cell = next((t for t in subterms(a) if t.op == "elem"), None)
    if cell is None:
        raise Missing("the cells of a row")
    ast = E.field(cell, "ast")
    ctx.ob("cells: their formula", a is dfld(ast, "Some"), "what is evaluated is %s" % show(a, 4)[:80])
    ctx.ob("cells: in the scope", e.args[1] is scope_, "a formula is evaluated in %s" % show(e.args[1], 3)[:80])
    p = drop(e.args[2])
    p = p.a[2] if p.op == "adt" and p.a[1] == "Some" else p
    ok = p.op == "call" and last(p.a[0]) == "new" and len(p.a) == 3 and p.a[1] is mk("pos", cells) and lin(p.a[2]) == ({at: 1}, 0)
    ctx.ob("cells: at their place", ok, "a formula is evaluated at %s" % show(p, 4)[:100])
    g = every(e.guard)
    ctx.ob("cells: each formula", live(pin_disc(g, ast, "Some")) == [TRUE], "some formulas are not evaluated: %s" % show(g, 3)[:100])
    fails = lambda t: pin_disc(pin_disc(every(t), ast, "Some"), e.ret, "Err")
    alls = {a for a in subterms(r) if a.op == "all" and live(fails(a.a[2])) == [FALSE]}
    err = live(fails(assume(r, lambda a: False if a.op == "a.val" and a.a[0] in alls else None)))
    ctx.ob("cells: errors", bool(err) and all(l.op == "adt" and l.a[1] == "Err" for l in err), "the error of a formula is ignored")
    for l in e.loops:
        if l in E.latch:
            ctx.ob("cells: errors end the row", TRUE not in leaves(fails(E.latch[l])), "the error of a formula is ignored")
    res = [l.a[2] for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    if not res:
        raise Missing("the evaluated row")
    R = res[0]
    adt = "csvpp::row::Row"
    for x in fields_of(adt, variants_of(adt)[0]):
        if x != "cells":
            v = drop(E.field(R, x))
            ctx.ob("row: " + x, v is E.field(row, x), "evaluation changes the %s of a row: %s" % (x, show(v, 3)[:80]))
    cs = drop(E.field(R, "cells"))
    el = None
    if cs.op == "rec" and cs.id in E.rec_info:
        init, st = E.rec_info[cs.id][:2]
        st = every(st)
        ok = empty(init)
        for av in ("Some", "None"):
            s = drop(pin_disc(pin_disc(st, ast, av), e.ret, "Ok"))
            o = ok and s.op == "upd" and last(s.a[0]) == "push" and s.a[2] is cs
            ctx.ob("cells: with%s formula kept" % ("" if av == "Some" else "out"), o, "the evaluated cells are %s" % show(s, 3)[:100])
            if o:
                cell_same(ctx, E, s.a[3], cell, ast, e, av)
    else:
        d = cs if cs.op != "dfld" else cs.a[0]
        e1 = each_in_order(E, d, cells)
        if e1 is None:
            raise Missing("the evaluated cells: %s" % show(cs, 3)[:100])
        for av in ("Some", "None"):
            cell_same(ctx, E, pin_disc(pin_disc(e1, ast, av), e.ret, "Ok"), cell, ast, e, av)


def cell_same(ctx, E, c, cell, ast, e, av):
    adt = "csvpp::cell::Cell"
    c = drop(c)
    c = c.a[2] if c.op == "adt" and c.a[1] == "Ok" else c
    pin = lambda t: drop(every(pin_disc(pin_disc(t, ast, av), e.ret, "Ok")))
    for x in fields_of(adt, variants_of(adt)[0]):
        v = pin(E.field(c, x))
        if x == "ast":
            want = dfld(e.ret, "Ok")
            ok = v.op == "adt" and v.a[1] == "Some" and v.a[2] is want if av == "Some" else v is ast or v.op == "adt" and v.a[1] == "None"
            ctx.ob("cell: formula (%s)" % av, ok, "the formula of a cell becomes %s" % show(v, 4)[:100])
        else:
            ctx.ob("cell: %s (%s)" % (x, av), v is E.field(cell, x), "evaluation changes the %s of a cell: %s" % (x, show(v, 3)[:80]))


def scope(ctx):
    """All rows are evaluated, in order, with the variables of the sheet, the code section and the command line."""
    f = ctx.fn("eval_spreadsheet", self_has="Module")
    E = ctx.engine(opaque=lambda g: (g.name == "eval" and "Row" in (g.self_ty or "")) or (g.name == "variables" and "Spreadsheet" in (g.self_ty or "")))
    r = ctx.run(E, f, ["module", "external"])
    m, ext = [sym(n, f.locals[i + 1]) for i, n in enumerate(("module", "external"))]
    rows = E.field(E.field(m, "spreadsheet"), "rows")
    es = [e for e in E.events if last(e.path) == "eval"]
    if not ctx.ob("rows: evaluated", len(es) == 1, "rows are evaluated at %d places" % len(es)):
        return
    e = es[0]
    ctx.ob("rows: each", e.args[0].op == "elem" and (e.args[0].a[0] is rows or E.isrc(e.args[0].a[0]) is rows), "the rows evaluated are %s" % show(e.args[0], 3)[:80])
    ctx.ob("rows: at their place", lin(e.args[3]) == ({mk("pos", rows): 1}, 0), "a row is evaluated as row %s" % show(e.args[3], 3)[:80])
    sc = e.args[2]
    ctx.ob("scope: functions", drop(E.field(sc, "functions")) is E.field(E.field(m, "scope"), "functions"), "formulas are evaluated with the functions %s" % show(E.field(sc, "functions"), 3)[:80])
    vs = E.field(sc, "variables")
    vv = [x.ret for x in E.events if last(x.path) == "variables"]
    vs = unlooped(E, vs)
    parts = set(subterms(vs))
    for n, src in (("the sheet", vv[0] if vv else None), ("the code section", E.field(E.field(m, "scope"), "variables")), ("the command line", ext)):
        ctx.ob("scope: variables of " + n, src is not None and src in parts, "the variables of %s are not defined in formulas" % n)
    if vv:
        q = [x for x in E.events if last(x.path) == "variables"][0]
        ctx.ob("scope: this sheet", q.args[0] is E.field(m, "spreadsheet"), "the variables are those of %s" % show(q.args[0], 3)[:80])
    whole(ctx, vs)
    ok = [l for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    bad = live(pin_disc(r, e.ret, "Err"))
    ctx.ob("rows: errors", any(l.op == "adt" and l.a[1] == "Err" for l in live(r)), "errors of rows are ignored")
    rs = drop(E.field(E.field(ok[0].a[2], "spreadsheet"), "rows")) if ok else None
    if rs is not None:
        d = rs.a[0] if rs.op == "dfld" and rs.a[1] == "Ok" else rs
        x = each_in_order(E, d, rows)
        x = x.a[2] if x is not None and x.op == "adt" and x.a[1] == "Ok" else x
        ctx.ob("rows: in order", x is not None and (drop(x) is dfld(e.ret, "Ok") or drop(x) is e.ret), "the evaluated rows are %s" % show(rs, 4)[:120])
        for n in ("source_code", "module_path", "required_modules"):
            ctx.ob("module: " + n, drop(E.field(ok[0].a[2], n)) is E.field(m, n), "evaluation changes the module's %s" % n)
    # and the offset the sheet is written at
    f, names = evaluation(ctx)
    E = ctx.engine(opaque=lambda g: g.name in ("eval_fills", "eval", "load_main", "write_object_file") + LOADS and g.key.startswith("csvpp") and g.key != f.key)
    r = ctx.run(E, f, names)
    comp = sym("compiler", f.locals[1])
    off = E.field(E.field(comp, "config"), "offset")
    used = any(t is off for e in E.events for a in list(e.args) for t in subterms(a))
    ctx.ob("positions: moved by the offset of the output", used, "the places variables stand for do not take the offset into account that the cells are written at")
    kv = E.field(E.field(comp, "config"), "key_values")
    ctx.ob("scope: the command line's values", any(t is kv for e in E.events if last(e.path) == "eval" for a in e.args for t in subterms(unlooped(E, a))), "the variables of the command line are not passed on")


def unlooped(E, t, n=0):
    """t with maps that a loop puts all the entries of another map into, one by one, turned into the extension by it"""
    H = {}
    for u in subterms(t):
        i = E.rec_info.get(u.id) if u.op == "rec" else None
        if not i or i[1] is None or n > 5:
            continue
        st = i[1]
        if st.op == "upd" and last(st.a[0]) == "insert" and st.a[2] is u and len(st.a) >= 5:
            k, v = strip_copy(st.a[3]), strip_copy(st.a[4])
            if k.op == "fld" and v.op == "fld" and (k.a[1], v.a[1]) == ("0", "1") and k.a[0] is v.a[0] and k.a[0].op == "elem":
                L = E.latch.get(tuple(u.a[:3]))
                if L is None and u.a[0] != "iter" or L is not None and any(not (a.op == "a.disc" and a.a[0].op == "next") for a in atoms_of(L)):
                    continue
                H[u] = mk("upd", "extend", None, unlooped(E, i[0], n + 1), unlooped(E, k.a[0].a[0], n + 1))
    return subst(t, H) if H else t


def strip_copy(t):
    while t.op == "call" and last(t.a[0]) in ("clone", "to_string", "to_owned"):
        t = t.a[1]
    return t


def whole(ctx, vs):
    """no source of variables is thinned out"""
    bad = [t for t in subterms(vs) if t.op == "coll" and t.a[2] is not TRUE or t.op == "upd" and last(t.a[0]) in ("remove", "retain", "clear") or t.op in ("take", "skip", "filter")]
    ctx.ob("scope: all variables", not bad, "some variables are dropped: %s" % [show(t, 3)[:80] for t in bad][:1])
