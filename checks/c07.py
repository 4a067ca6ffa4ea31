"""C07: every cell lands at its own position."""
from sa.terms import *
from sa.q import *
from checks.c02 import excel_root
from checks.c03 import google_root, agg_field, isdef
from checks.c06 import csv_root, sums, indices, new_cells, chain

TITLE = "Each compiled cell is written at its own row and column"
RULE = ("The position handed to every positional sink (Excel cell, comment, validation range; Google GridCoordinate and row order; CSV "
        "record order) is evaluated to a term over the loop positions; it must be (row, column) of the compiled cell, converted to the "
        "sink's own base, plus the configured offsets.")


def axis(t):
    """-> ('col'|'row', source) of a position term"""
    while t.op in ("cast", "conv"):
        t = [x for x in t.a if isinstance(x, T)][0]
    if t.op == "fld" and t.a[0].op == "fld":           # Address.column.x / Address.row.y
        n = t.a[0].a[0]
        if n.op == "call" and n.a[0].endswith("Address::new"):
            return axis(n.a[1] if t.a[0].a[1] == "column" else n.a[2])
    if t.op == "pos" or t.op == "elem":
        s = t.a[0]
        names = [x.a[1] for x in subterms(s) if x.op == "fld"]
        if s.op == "fld" and s.a[1] == "cells":
            return "col"
        if s.op == "fld" and s.a[1] == "rows":
            return "row"
    return None


def address(t):
    """(col axis, row axis) of a textual cell address"""
    for x in subterms(t):
        if x.op == "call" and x.a[0].endswith("Address::new"):
            parts = t.a if t.op == "fmt" else ()
            if t.op == "fmt" and len(parts) == 1 and parts[0].op == "disp" and parts[0].a[2] is x:
                return sums_axes(x.a[1]), sums_axes(x.a[2])
    if t.op == "tup":
        return tuple(sums_axes(x, base=1) for x in t.a)
    return None


def unaddress(ts):
    """Address::new(c, r).column.x is c"""
    out = []
    for x in ts:
        if x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0].endswith("Address::new"):
            n = x.a[0].a[0]
            out += unaddress(sums(n.a[1] if x.a[0].a[1] == "column" else n.a[2], []))
        else:
            out.append(x)
    return out


def sums_axes(t, base=0):
    """{'col'|'row', 'x'|'y' offsets, constants}"""
    out = []
    for x in unaddress(sums(t, [])):
        if x.op == "c":
            out.append(int(x.a[1]))
        elif x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[1] == "offset":
            out.append("x" if str(x.a[1]) == "0" else "y")
        else:
            out.append(axis(x) or show(x, 3))
    if base:
        out = [x - base if isinstance(x, int) else x for x in out]
    return sorted((x for x in out if x != 0), key=str)


def excel(ctx):
    E = excel_root(ctx)
    known_off = False
    for key, es, f in (("cell", evs(E, "Worksheet::get_cell_mut"), lambda e: address(e.args[1])),
                       ("validation", evs(E, "SequenceOfReferences::set_sqref"), lambda e: address(e.args[1]))):
        if not ctx.ob("excel:%s written" % key, bool(es), "no %s is written" % key):
            continue
        for e in es:
            p = f(e)
            ctx.ob("excel:" + key, p == (["col", "x"], ["row", "y"]), "the %s is placed at %s" % (key, p if p else show(e.args[1], 5)[:120]), where(e))
    cs, rs = evs(E, "Coordinate::set_col_num"), evs(E, "Coordinate::set_row_num")
    if ctx.ob("excel:note written", bool(cs) and bool(rs), "comments get no coordinate"):
        for e, a in ((cs[0], "col"), (rs[0], "row")):
            p = sums_axes(e.args[1])
            ctx.ob("excel:note " + a, p == [1, a, "x" if a == "col" else "y"], "the note's %s is %s (umya counts from 1)" % (a, p), where(e))
    # notes: attached to the very comment that is added
    add = evs(E, "Worksheet::add_comments")
    for e in add:
        ups = {x.a[0].rsplit("::", 1)[-1] for x in deep(E, e.args[1]) if x.op == "upd"}
        ctx.ob("excel:note flow", {"set_col_num", "set_row_num", "set_text"} <= ups, "the comment added lacks %s" % ({"set_col_num", "set_row_num", "set_text"} - ups), where(e))


def google(ctx):
    E, ret = google_root(ctx)
    if E is None:
        return
    gc = evs(E, "GridCoordinate::GridCoordinate")
    uc = evs(E, "UpdateCellsRequest::UpdateCellsRequest")
    if not ctx.ob("google:placed", bool(gc) and bool(uc), "no update request with a start coordinate is built"):
        return

    def plain(t):
        t = hoist(t)
        ls = [l.a[2] for l in leaves(t) if l.op == "adt" and l.a[1] == "Some"]
        return ls[0] if len(set(ls)) == 1 and len(leaves(t)) <= 2 else None
    for e in uc:
        st = plain(agg_field(e, "start"))
        rows = plain(agg_field(e, "rows"))
        if not ctx.ob("google:start", st is not None and rows is not None, "start or rows of the update are not always given", where(e)):
            continue
        fs = fields_of(st.a[0], st.a[1])
        g = lambda n: plain(st.a[2 + fs.index(n)])
        col, row = g("column_index"), g("row_index")
        ctx.ob("google:column", col is not None and sums_axes(fits_(col)) == ["x"], "the start column is %s, not the x offset" % (col is not None and sums_axes(col)), where(e))
        rs = sums(fits_(row), []) if row is not None else []
        y = [x for x in rs if x.op == "fld" and x.a[0].op == "fld" and x.a[0].a[1] == "offset"]
        rest = [x for x in rs if x not in y and x is not c_int(0)]
        ctx.ob("google:row offset", len(y) == 1 and str(y[0].a[1]) == "1", "the start row does not include the y offset", where(e))
        src = rows
        if src.op == "elem" and src.a[0].op == "call" and src.a[0].a[0].endswith("chunks"):
            n = src.a[0].a[2]
            ok = len(rest) == 1 and rest[0].op == "bin" and rest[0].a[0] in ("Mul", "MulUnchecked") and {rest[0].a[1], rest[0].a[2]} == {n, mk("pos", src.a[0])}
            ctx.ob("google:chunk start", ok, "a chunk of %s rows starts at %s" % (show(n, 2), [show(x, 4) for x in rest]), where(e))
            src = src.a[0].a[1]
        else:
            ctx.ob("google:chunk start", not rest, "the rows start at %s" % [show(x, 4) for x in rest], where(e))
        ok = src.op == "coll" and src.a[2] is TRUE and src.a[0].op == "fld" and src.a[0].a[1] == "rows"
        ctx.ob("google:every row in order", ok, "the rows sent are not all compiled rows in order: %s" % show(src, 3)[:160], where(e))
    ctx.ob("google:in request", any(u.ret in set(deep(E, ret)) for u in uc), "the update is not part of the request", where(uc[0]))
    ls = list(leaves(hoist(fld_of(ret, "requests")))) if fld_of(ret, "requests") is not None else []
    ok = ls and all(l.op == "adt" and l.a[1] == "Some" and l.a[2].op == "coll" and l.a[2].a[2] is TRUE for l in ls if l is not DEAD)
    ctx.ob("google:all chunks", ok, "not every chunk becomes a request", "")


def fld_of(t, n):
    if t.op == "adt":
        fs = fields_of(t.a[0], t.a[1])
        return t.a[2 + fs.index(n)] if fs and n in fs else None
    return None


def fits_(t):
    t = fits(t)
    ls = [l for l in leaves(t) if l is not DEAD]
    return ls[0] if len(ls) == 1 else t


def csv(ctx):
    r = csv_root(ctx)
    if r is None:
        return
    E, el, rec = r
    for l in leaves(el):
        for c in new_cells(l):
            idx = indices(c)
            names = [n for k, n in chain(c)[0] if k == "fld"]
            ok = len(idx) == 2 and all(plain_pos(x) for x in idx) and idx[0] is not idx[1]
            ctx.ob("csv:in order", ok, "field i of record r is not cell i of row r: %s" % [show(x, 4)[:80] for x in idx], where(rec))
    off = [x for x in deep(E, rec.args[1]) if x.op == "fld" and x.a[1] == "offset"]
    ctx.ob("offset:csv", bool(off), "the x/y offset is ignored for CSV files", where(rec))
    ctx.ob("csv:every row", len(rec.loops) == 1, "records are not written one per row", where(rec))


def plain_pos(x):
    """the running position of an iteration, without arithmetic"""
    if x.op == "pos":
        return True
    return x.op == "elem" and x.a[0].op == "adt" and x.a[0].a[0].endswith("Range") and x.a[0].a[2] is c_int(0)


def check(ctx):
    excel(ctx)
    google(ctx)
    csv(ctx)
