"""C27: reading the cells of the spreadsheet section."""
from sa.q import *
from sa.terms import *
from sa import mach
from sa.check import Missing
from sa import terms as TERMS
from checks.c20 import last
from sa.mach import END, Need, Machine

TITLE = "The spreadsheet section is split into exactly the written rows and cells"
RULE = ("The loops of the csv parser, everything they call inlined, are read as a transducer over characters (control points: the loops; for every lookahead: "
        "characters consumed, appended, next control point) and shown equivalent to the specified one by exploring all pairs of control points; row, column "
        "and position counters and the collection of cells and rows are checked on the loop-carried values.")


def field_spec(q, w):
    def at(i):
        if i >= len(w):
            if w and w[-1] is END:
                return END
            raise Need()
        return w[i]
    c = at(0)
    out = lambda *cs: {"value": list(cs)}
    if q == "before a field":
        if c is END:
            return ("ret", "nothing", 0, {})
        if c == "\n":
            return ("ret", "last", 1, {})
        if c.isspace():
            return ("go", q, 1, {})
        if c == ",":
            return ("ret", "more", 1, {})
        if c == '"':
            return ("go", "in quotes", 1, {})
        if c == "\\" and at(1) == "\n":
            return ("go", q, 2, {})
        return ("go", "in a field", 1, out(c))
    if q == "in a field":
        if c is END:
            return ("ret", "last", 0, {})
        if c == "\n":
            return ("ret", "last", 1, {})
        if c == ",":
            return ("ret", "more", 1, {})
        if c == "\\" and at(1) == "\n":
            return ("go", q, 2, {})
        return ("go", q, 1, out(c))
    if q == "in quotes":
        if c is END:
            return ("ret", "more", 0, {})
        if c == '"' and at(1) == '"':
            return ("go", q, 2, out('"'))
        if c == '"':
            return ("go", "after quotes", 1, {})
        return ("go", q, 1, out(c))
    if q == "after quotes":
        if c is END:
            return ("ret", "last", 0, {})
        if c == "\n":
            return ("ret", "last", 1, {})
        if c == ",":
            return ("ret", "more", 1, {})
        if c.isspace():
            return ("go", q, 1, {})
        return ("ret", "error", 1, {})


def sep(t):
    return "," if t.op == "fld" and t.a[1] == "separator" else None


CHARS = [",", "\n", "\\", '"', " ", "\t", "a", "é", "#", END]


def report(ctx, what, res):
    for k, ok, msg in res:
        ctx.ob("%s: %s" % (what, k), ok, "%s, %s: the parser %s" % (what, k, msg))


def fields(ctx):
    f = the(ctx, "parse_field")
    E = ctx.engine(opaque=lambda g: g.key == f.key or g.name == "parse_error")
    r = ctx.run(E, f, ["self", "fb"])
    self, fb = sym("self", f.locals[1]), sym("fb", f.locals[2])
    final = E.state.get(self, self)
    m = Machine(E, r, E.field(self, "chars"), sep)
    KIND = {"Some": "more", "Last": "last", "Eof": "nothing"}
    value = lambda o: E.field(o, "value")
    trimmed, places = set(), []

    def result(leaf, pin, bufs, lid, win):
        b, how = bufs["value"]
        pos = lambda o: m.consumed(E.field(pin(o), "chars"), lid, win)
        if leaf.op == "call" and leaf.a[0] == f.key:
            e = [e for e in E.events if e.ret is leaf][0]
            return ("go", {"value": (fb, how)}, pos(e.was[0]), {"value": m.appended(pin(value(pin(e.was[1]))), value(b), lid, win)})
        if leaf.op == "adt" and leaf.a[1] == "Err":
            return ("ret", "error", 1, {})
        l = leaf.a[2] if leaf.op == "adt" and leaf.a[1] == "Ok" else leaf
        if l.op != "adt" or l.a[1] not in KIND:
            raise mach.Unknown("result " + show(leaf, 3)[:80])
        if l.a[1] == "Eof":
            return ("ret", "nothing", pos(final), {})
        v = E.field(l.a[2], "value")
        name = None
        while v.op == "call" and last(v.a[0]).startswith("trim") and len(v.a) == 2:
            name, v = last(v.a[0]), v.a[1]
        trimmed.add(name)
        places.append(E.field(l.a[2], "address"))
        return ("ret", KIND[l.a[1]], pos(final), {"value": m.appended(pin(v), value(b), lid, win)})

    res = mach.compare(m, {"value": (fb, value)}, field_spec, "before a field", CHARS, result)
    ctx.floor("characters ahead of control points of the field parser", len(res), 30)
    report(ctx, "a field", res)
    ctx.ob("field: surroundings", trimmed <= {"trim", "trim_end"}, "the whitespace after a field is kept (%s)" % trimmed)
    for p in places:
        while p.op == "fld" and p.a[0].op == "rec":
            p = E.field(E.rec_info[p.a[0].id][0], p.a[1])
            p = [l for l in leaves(p) if l not in (DEAD, CONT)][0]
        while p.op == "fld" and p.a[0].op == "with":
            p = E.field(p.a[0].a[0], p.a[1])
        if not (p.op == "fld" and p.a[1] == "address"):
            ctx.ob("field: address", False, "a field's address is %s" % show(p, 3)[:80])
    positions(ctx, E, m)


def positions(ctx, E, m):
    """Every character kept has the position of the character."""
    n = 0
    for i in E.rec_info.values():
        rec, step = i[3], i[1]
        if step is None:
            continue
        v, p = E.field(rec, "value"), E.field(rec, "positions")
        if E.field(step, "value") is v and E.field(step, "positions") is p:
            continue
        lid = tuple(rec.a[:3])
        if m.curs.get(lid) is None:
            continue
        st = m.owner(lid)
        for c in ("a", "\n"):
            for tgt, again, conds, pin in m.settle(lid, [c, "b"]):
                if not again:
                    continue
                val, pos = pin(E.field(pin(step), "value")), pin(E.field(pin(step), "positions"))
                kept = m.appended(val, v, lid, [c, "b"])
                if not kept:
                    continue
                n += 1
                ok = len(kept) == 1 and pos.op == "upd" and pos.a[0] == "push" and pos.a[2] is p
                ctx.ob("position kept: %r" % c, ok, "the character %r is kept without its position (%s)" % (c, show(pos, 2)[:60]))
                if not ok:
                    continue
                at = pos.a[3]
                new = pin(E.rec_info[st.id][1])
                for al, ao, wl, wo, above in mach.cases([pin(E.field(at, "line_number")), pin(E.field(at, "line_offset")), pin(E.field(new, "source_line")),
                                                         pin(E.field(new, "source_offset")), E.field(E.field(new, "config"), "lines_above")]):
                    al, ao, wl, wo = flatadd(al), flatadd(ao), flatadd(wl) + [above], flatadd(wo)
                    ctx.ob("position line", sorted(al, key=str) == sorted(wl, key=str), "a character's line is %s" % [show(x, 3)[-60:] for x in al])
                    ctx.ob("position column", sorted(ao, key=str) == sorted(wo, key=str), "a character's column is %s" % [show(x, 3)[-60:] for x in ao])
    ctx.floor("kept characters with a position", n, 2)


def flatadd(t):
    if t.op == "cast":
        return flatadd(t.a[-1])
    if t.op == "bin" and t.a[0].startswith("Add"):
        return flatadd(t.a[1]) + flatadd(t.a[2])
    if t.op == "dfld" and t.a[1] == "Ok" and t.a[0].op == "call":
        return flatadd(t.a[0].a[1])
    return [t]


def the(ctx, name):
    fs = ctx.fns(lambda g: g.name == name and not g.closure and g.key.startswith("csvp::") and "Parser" in g.key)
    if len(fs) != 1:
        raise Missing("the csv parser's " + name)
    return fs[0]


def counter(E, n, on, fine):
    """n counts from zero: one more exactly where `on` holds among the ways to go on (`fine`)"""
    if n.op in ("len", "call") and (n.op == "len" or last(n.a[0]) == "len") and n.a[-1].op == "rec":
        # the length of a list that grows by one
        v = n.a[-1]
        init, step = E.rec_info.get(v.id, (None, None))[:2]
        if init is None or step is None or not empty_seq(init):
            return False
        for lab, want in on.items():
            s = {l for l in leaves(fine(lab, step)) if l not in (DEAD, CONT)}
            if want is not None and s and not (all(l.op == "upd" and l.a[0] == "push" and l.a[2] is v for l in s) if want else s == {v}):
                return False
        return True
    if n.op != "rec" or n.id not in E.rec_info:
        return False
    init, step = E.rec_info[n.id][:2]
    if not (init.op == "c" and init.a[1] == 0):
        return False
    for lab, want in on.items():
        s = {l for l in leaves(fine(lab, step)) if l not in (DEAD, CONT)}
        if want is None or not s:
            continue
        w = {mk("bin", "Add", n, c_int(1))} if want else {n}
        if s != w:
            return False
    return True


def record(ctx):
    f = the(ctx, "parse_record")
    E = ctx.engine(opaque=lambda g: g.name == "parse_field")
    r = ctx.run(E, f, ["self", "row"])
    self, row = sym("self", f.locals[1]), sym("row", f.locals[2])
    es = [e for e in E.events if last(e.path) == "parse_field"]
    if not ctx.ob("record: fields", len({e.ret for e in es}) == 1, "a record's fields are read in %d ways" % len(es)):
        return
    e = es[0]
    res, fr = e.ret, dfld(e.ret, "Ok")
    FR = [a for a in TERMS.ADTS if a.endswith("::FieldResult")][0]
    it = lambda t, k: given(t, (atom_disc(res, RESULT), "Ok"), (atom_disc(fr, FR), k)) if k else given(t, (atom_disc(res, RESULT), "Err"))
    lid = e.loops[-1] if e.loops else None
    if not ctx.ob("record: loop", lid is not None, "fields are not read one after the other"):
        return
    for k, w in (("Some", True), ("Last", False), ("Eof", False), (None, False)):
        l = only_true(it(E.latch[lid], k))
        ctx.ob("record: after %s" % k, undead(l, FALSE) is (TRUE if w else FALSE), "reading a record %s after a field was read as %s" % ("goes on" if not w else "ends", k or "an error"))
    # comments are dealt with before any field is read
    final = E.state.get(self, self)
    m = Machine(E, r, E.field(self, "chars"), sep)

    def result(leaf, pin, bufs, lid, win):
        if isinstance(leaf, tuple):
            return ("ret", "fields", 0, {})
        l = leaf.a[2] if leaf.op == "adt" and leaf.a[1] == "Ok" else leaf
        if l.op == "adt" and l.a[1] == "Comment":
            return ("ret", "comment", m.consumed(E.field(pin(final), "chars"), lid, win), {})
        raise mach.Unknown("result " + show(leaf, 3)[:80])

    def spec(q, w):
        if not w:
            raise Need()
        if q == "start of a record":
            return ("go", "in a comment", 1, {}) if w[0] == "#" else ("ret", "fields", 0, {})
        return ("ret", "comment", 0, {}) if w[0] is END else ("ret", "comment", 1, {}) if w[0] == "\n" else ("go", q, 1, {})

    rs = mach.compare(m, {}, spec, "start of a record", CHARS, result)
    ctx.floor("characters ahead of control points of the record parser", len(rs), 10)
    report(ctx, "a record", rs)

    # the fields, in order, at their addresses
    addr = E.field(e.args[1], "address")
    col = None
    t = addr
    while t.op == "call" and len(t.a) == 2:
        t = t.a[1]
    if ctx.ob("record: address", t.op == "tup" and len(t.a) == 2 and t.a[1] is row, "a field's address is %s" % show(addr, 4)[:100]):
        ctx.ob("record: column", counter(E, t.a[0], {"Some": True}, lambda k, s: it(s, k)), "the column of a field does not count the fields before it")
    ctx.ob("record: new field", E.field(e.args[1], "value") in (c_str(""),) or empty_seq(E.field(e.args[1], "value")), "a field starts as %s" % show(E.field(e.args[1], "value"), 3)[:80])
    fields = None
    for i in E.rec_info.values():
        rec, step = i[3], i[1]
        if step is None or tuple(rec.a[:3]) != lid:
            continue
        s = [l for l in leaves(it(step, "Some")) if l not in (DEAD, CONT)]
        if len(s) == 1 and s[0].op == "upd" and s[0].a[0] == "push" and s[0].a[2] is rec:
            fields = rec
            ctx.ob("record: field kept", s[0].a[3] is dfld(fr, "Some"), "what is kept of a field is %s" % show(s[0].a[3], 3)[:80])
            ctx.ob("record: starts empty", empty_seq(i[0]), "a record starts with %s" % show(i[0], 3)[:60])
    if not ctx.ob("record: kept", fields is not None, "the fields of a record are not kept"):
        return
    for k in ("Last", "Eof"):
        for l in flatres(it(r, k)):
            if l[0] == "Comment":
                continue
            want = mk("upd", "push", 0, fields, dfld(fr, "Last")) if k == "Last" else fields
            ctx.ob("record: result %s" % k, (l[0] == "Some" and l[1] is want) or (k == "Eof" and l[0] == "Eof"), "a record which ends with %s is %s" % (k, l[0] if l[1] is None else show(l[1], 4)[-100:]))
    size = next((a for a in deep_atoms(it(r, "Eof")) if a.op == "a.val" and a.a[0].op in ("len", "call") and fields in a.a[0].a), None)
    if not ctx.ob("record: end of input", size is not None, "whether a record is added at the end of the input does not depend on its fields"):
        return
    for n, w in ((0, "Eof"), (OTHER, "Some")):
        ls = {l[0] for l in flatres(given(it(r, "Eof"), (size, n)))} - {"Comment"}
        ctx.ob("record: end of input after %s fields" % ("no" if n == 0 else "some"), ls == {w}, "at the end of the input after %s fields the record is %s" % ("no" if n == 0 else "some", ls))
    ctx.ob("record: error", must_stop(E, r, e), "an error in a field is ignored")


def flatres(t):
    return [(l, v) for _, l, v in res_paths(t)]


def deep_atoms(t):
    return [x for y in mach.deep_terms(t) if y.op == "gate" for x in (y.a[0],)]


def res_paths(t):
    """(path, RecordResult variant, payload) of every way to answer Ok"""
    out = []

    def go(x, p):
        for q, l in paths(x):
            if l in (DEAD, CONT) or (l.op == "adt" and l.a[1] == "Err"):
                continue
            if l.op == "adt" and l.a[1] == "Ok":
                go(l.a[2], p + list(q))
            elif l.op == "adt":
                for q2, v in (paths(l.a[2]) if len(l.a) > 2 else [((), None)]):
                    if v not in (DEAD, CONT):
                        out.append((p + list(q) + list(q2), l.a[1], v))
            else:
                out.append((p + list(q), "?", l))
    go(t, [])
    return out


def whole(ctx):
    f = [g for g in ctx.fns(lambda g: g.name == "parse" and not g.closure and g.key.startswith("csvp::") and "Parser" in g.key)]
    if len(f) != 1:
        raise Missing("the csv parser")
    f = f[0]
    E = ctx.engine(opaque=lambda g: g.name == "parse_record")
    r = ctx.run(E, f, ["self"])
    self = sym("self", f.locals[1])
    es = [e for e in E.events if last(e.path) == "parse_record"]
    if not ctx.ob("records", len({e.ret for e in es}) == 1 and es[0].loops, "records are read in %d ways" % len(es)):
        return
    e = es[0]
    lid = e.loops[-1]
    rr = dfld(e.ret, "Ok")
    RR = [a for a in TERMS.ADTS if a.endswith("::RecordResult")][0]
    it = lambda t, k: given(t, (atom_disc(e.ret, RESULT), "Ok"), (atom_disc(rr, RR), k)) if k else given(t, (atom_disc(e.ret, RESULT), "Err"))
    for k, w in (("Some", True), ("Comment", True), ("Eof", False), (None, False)):
        l = only_true(it(E.latch[lid], k))
        ctx.ob("records: after %s" % k, undead(l, FALSE) is (TRUE if w else FALSE), "reading records %s after %s" % ("goes on" if not w else "ends", k or "an error"))
    ctx.ob("records: row", counter(E, e.args[1], {"Some": True, "Comment": False}, lambda k, s: it(s, k)), "the row of a record does not count the records before it")
    ls = {l for l in leaves(okof(r)) if l not in (DEAD, CONT)}
    ctx.ob("records: error", must_stop(E, r, e), "an error in a record is ignored")
    if ctx.ob("records: result", len(ls) == 1, "the result is one of %d" % len(ls)):
        out = ls.pop()
        i = E.rec_info.get(out.id)
        if ctx.ob("records: kept", i is not None, "the result is %s" % show(out, 3)[:80]):
            ctx.ob("records: start empty", empty_seq(i[0]), "the result starts as %s" % show(i[0], 3)[:60])
            for k in ("Some", "Comment"):
                s = {l for l in leaves(it(i[1], k)) if l not in (DEAD, CONT)}
                w = {mk("upd", "push", 0, out, dfld(rr, "Some"))} if k == "Some" else {out}
                ctx.ob("records: keeps %s" % k, s == w, "after %s the result becomes %s" % (k, [show(x, 3)[-60:] for x in s]))
    m = Machine(E, r, E.field(self, "chars"), sep)
    skip = lambda q, w: (_ for _ in ()).throw(Need()) if not w else ("go", q, 1, {}) if w[0] == "\n" else ("ret", "records", 0, {})

    def result(leaf, pin, bufs, lid, win):
        if isinstance(leaf, tuple):
            return ("ret", "records", 0, {})
        raise mach.Unknown("result " + show(leaf, 3)[:80])
    report(ctx, "the input", mach.compare(m, {}, skip, "start", CHARS, result))


def config(ctx):
    """The section is read with commas, and lines counted from the top of the file."""
    fs = [g for g in ctx.fns(lambda g: g.name == "parse" and not g.closure and "spreadsheet" in g.key.lower() and g.key.startswith("csvpp"))]
    n = 0
    for f in fs:
        E = ctx.engine(opaque=lambda g: g.key.startswith("csvp::parser::parse") or g.name == "parse" and "Row" in g.key)
        r = ctx.run(E, f, ["source"])
        src = sym("source", f.locals[1])
        for e in E.events:
            if e.path == "csvp::parser::parse":
                n += 1
                ctx.ob("section", e.args[0] is fld(src, "csv_section"), "the cells are read from %s" % show(e.args[0], 3)[:80])
                c = e.args[1]
                ctx.ob("separator", E.field(c, "separator") in (c_char(44),), "cells are separated by %s" % show(E.field(c, "separator"), 3)[:60])
                ctx.ob("lines above", E.field(c, "lines_above") is fld(src, "length_of_code_section"), "lines are counted from %s" % show(E.field(c, "lines_above"), 3)[:60])
                ctx.ob("section: error", must_stop(E, r, e), "an error in the cells is ignored")
                for l in {l for l in leaves(okof(r)) if l not in (DEAD, CONT)}:
                    rows = E.field(l, "rows")
                    el = each_in_order(E, rows, dfld(e.ret, "Ok"))
                    ctx.ob("rows", el is not None and any(x.op == "elem" for x in deep(E, el)), "the rows are not the records in order: %s" % show(rows, 3)[:80])
    ctx.floor("readings of the spreadsheet section", n, 1)


def okof(t):
    return lift(None, lambda x: x.a[2] if x.op == "adt" and x.a[1] == "Ok" else DEAD, t)


def check(ctx):
    for part in (fields, record, whole, config):
        try:
            part(ctx)
        except mach.Unknown as e:
            ctx.notes.append("%s: not analysed: %s" % (part.__name__, str(e)[:300]))
