"""C06: merging with what the target already holds."""
from sa.terms import *
from sa.q import *
from checks.c02 import excel_root, find_owner, adt_path
from checks.c03 import build, agg_field, isdef, google_root

TITLE = "Writing merges with existing content; safe mode never overwrites"
RULE = ("Per target, the value written for a position is evaluated to a decision diagram over: is there a compiled cell, is there an "
        "existing value, is overwriting allowed.  It must be the compiled cell where there is one (unless an existing value may not be "
        "overwritten), else the existing value at the same position, else nothing; the two sides must be read at the same row and "
        "column; and rows and columns beyond the compiled ones must be covered.")
POS = ("Some", "Value", "Ok")


def chain(t):
    """The accesses from a cell-like term to the collection it comes from: [(index term or 'elem')], root"""
    idx = []
    while True:
        if t.op in ("dfld", "fld", "conv", "cast"):
            if t.op == "fld":
                idx.append(("fld", t.a[1]))
            t = [x for x in t.a if isinstance(x, T)][0]
        elif t.op == "call" and t.a[0] == "sget":
            idx.append(("at", t.a[2]))
            t = t.a[1]
        elif t.op == "elem":
            idx.append(("at", mk("pos", t.a[0])))
            t = t.a[0]
        elif t.op == "call" and t.a[0].endswith("Worksheet::get_cell"):
            idx.append(("cell", t.a[2]))
            t = t.a[1]
            return idx, t
        else:
            return idx, t


def side(t):
    """'new' | 'old' | None: is this term read from the compiled rows or from the existing content?"""
    idx, root = chain(t)
    if not any(k in ("at", "cell") for k, _ in idx):
        return None
    names = [n for k, n in idx if k == "fld"]
    if "spreadsheet" in names or "rows" in names:
        return "new"
    if root.op == "call" and ("records" in root.a[0] or root.a[0].endswith("Range")):
        return None
    return "old"


def new_cells(t):
    """Compiled cells a term is made of."""
    return [x for x in subterms(t) if x.op in ("dfld", "elem") and side(x) == "new" and sum(1 for k, _ in chain(x)[0] if k == "at") == 2]


def old_cells(t):
    return [x for x in subterms(t) if x.op in ("dfld", "elem", "call") and side(x) == "old"]


def csv_root(ctx):
    E = ctx.engine()
    fn = ctx.fn(name="write", trait="csvpp::target::CompilationTarget", self_has="::Csv")
    ctx.run(E, fn, ["self", "module"])
    all_collected(E, UNIT)
    rec = evs(E, "Writer::write_record")
    if not ctx.ob("csv:records written", len(rec) >= 1, "no record is written to the CSV file"):
        return None
    r = rec[0].args[1]
    while True:
        if r.op == "upd":
            r = r.a[2]
        elif r.op == "rec" and pads(E, r):
            r = E.rec_info[r.id][0]
        else:
            break
    el = E.elem(r, E.state) if False else elem_of(r)
    if not ctx.ob("csv:record built", el is not None, "cannot see what a CSV record is made of: %s" % show(r, 3)[:200], where(rec[0])):
        return None
    # (as it is where a record is written)
    return E, ite(only_true(rec[0].guard), el, DEAD), rec[0]


def pads(E, r):
    """is r made by adding empty fields at the end, for a while?"""
    i = E.rec_info.get(r.id)
    return bool(i) and isinstance(i[1], T) and all(l in (DEAD, CONT) or l is r or l.op == "upd" and l.a[0].split("::")[-1] == "push" and l.a[2] is r and strip(l.a[3]) is c_str("")
                                                   for l in leaves(i[1]))


def elem_of(r):
    if r.op == "coll":
        return r.a[1]
    return None


def table(ctx, key, el, w, is_new, is_old, is_empty, always_new=False):
    n = 0
    for p, l in paths(el):
        if l is DEAD or l is CONT:
            continue
        new = [lab for at, lab in p if side(at.a[0]) == "new"]
        old = [lab for at, lab in p if side(at.a[0]) == "old"]
        ow = [lab for at, lab in p if at.a[0].op == "fld" and at.a[0].a[1] == "overwrite_values"]
        new = always_new or (bool(new) and all(x in POS for x in new))
        old = bool(old) and all(x in POS for x in old)
        if new and old:
            if not ow:
                want = "either"
            else:
                want = "new" if ow[0] is True else "old"
        else:
            want = "new" if new else "old" if old else "empty"
        got = "new" if is_new(l) else "old" if is_old(l) else "empty" if is_empty(l) else "?" + show(l, 4)[:120]
        n += 1
        ok = got == want
        ctx.ob("%s:merge" % key, ok, "with %s cell, %s existing value%s: writes %s, not %s" % (
            "a compiled" if new else "no compiled", "an" if old else "no", ", overwriting %s" % ow[0] if ow else "", got, want), w)
    ctx.floor(key + " merge cases", n, 3)


def indices(t):
    return [x for k, x in chain(t)[0] if k == "at"]


def csv(ctx):
    r = csv_root(ctx)
    if r is None:
        return
    E, el, rec = r
    table(ctx, "csv", el, where(rec), lambda l: bool(new_cells(l)), lambda l: side(l) == "old", lambda l: l is c_str(""))
    olds = {tuple(indices(l)) for l in leaves(el) if side(l) == "old"}
    news = {tuple(indices(x)) for l in leaves(el) for x in new_cells(l)}
    ctx.ob("csv:same position", len(olds) == 1 and olds == news, "existing and compiled values are read at different positions", where(rec))
    src = rec.args[1]
    conts = [x for x in old_containers(el)]
    # nothing that exists is cut off: the row count and the width reach at least the existing ones
    for i in next(iter(news), ()):
        i = i.a[0] if i.op in ("elem", "pos") else i
        if i.op == "adt" and i.a[0].endswith("Range"):
            ctx.ob("csv:from the first", i.a[2] is c_int(0), "the positions written start at %s" % show(i.a[2], 3), where(rec))
            ends = list(deep(E, i.a[3]))
            ctx.ob("csv:covers existing", any(is_len_of(x, "old", conts) for x in ends), "positions of existing values beyond the compiled ones are not written", where(rec))
            ctx.ob("csv:covers compiled", any(is_len_of(x, "new", conts) for x in ends), "not every compiled position is written", where(rec))
            ctx.ob("csv:covers all", not any(x.op == "call" and (x.a[0] == "min" or x.a[0].endswith("::min")) for x in ends), "the smaller extent is used", where(rec))
        else:
            ctx.ob("csv:covers existing", False, "only positions of the compiled spreadsheet are written: existing values beyond it are lost", where(rec))
    for x in subterms(src):
        if x.op == "upd" and x.a[0].rsplit("::", 1)[-1] in ("resize", "truncate", "drain", "split_off", "pop", "resize_with"):
            d = list(deep(E, x.a[3])) if len(x.a) > 3 else []
            ctx.ob("csv:width", any(is_len_of(y, "old", conts) for y in d) or any(y.op == "call" and y.a[0] == "len" and y.a[1].op == "coll" for y in d),
                   "the record is cut to a width which ignores the existing values", where(rec))
            for sd in ("old", "new"):
                ctx.ob("csv:width", widest(E, x.a[3], sd, conts) is not False, "the record can be cut to a width below that of the %s values" % ("existing" if sd == "old" else "compiled"), where(rec))
            # (where the width is a number which is computed at all, and not the length of the record itself)
            ctx.ob("csv:width compiled", any(is_len_of(y, "new", conts) for y in d), "the record is cut to a width which ignores the compiled values", where(rec))
            cut = [y for y in d if y.op == "call" and y.a[0].rsplit("::", 1)[-1] in ("min", "min_by_key", "min_by", "last", "first", "nth", "saturating_sub")
                   or y.op in ("sub", "div")]
            ctx.ob("csv:width", not cut, "the record is cut to a smaller width: %s" % (show(cut[0], 4)[:150] if cut else ""), where(rec))
    # what exists is read from the file about to be written
    op = evs(E, "File::open") + evs(E, "ReaderBuilder::from_path", "Reader::from_path")
    wr = evs(E, "WriterBuilder::from_path", "Writer::from_path", "File::create")
    ctx.ob("csv:same file", bool(op) and bool(wr) and op[0].args[-1] is wr[0].args[-1] or not wr, "existing values are read from another file", where(wr[0]) if wr else "")
    ctx.ob("csv:read first", bool(op) and bool(wr) and max(e.seq for e in op) < min(e.seq for e in wr), "the file is opened for writing before it is read", "")
    for e in evs(E, "ExistingCell::Value"):
        ctx.ob("csv:existing text", e.args[0].op == "elem", "an existing value is altered while being read: %s" % show(e.args[0], 3)[:100], where(e))
    hd = evs(E, "ReaderBuilder::has_headers")
    ctx.ob("csv:no header row", bool(hd) and all(e.args[1] is FALSE for e in hd), "the first existing row is taken for a header and dropped", where(hd[0]) if hd else "")
    tr = evs(E, "ReaderBuilder::trim", "ReaderBuilder::comment", "ReaderBuilder::delimiter", "ReaderBuilder::quoting", "ReaderBuilder::quote")
    ctx.ob("csv:plain reader", not tr, "the existing file is read with %s" % sorted({e.path for e in tr}), where(tr[0]) if tr else "")


def old_containers(el):
    out = set()
    for l in leaves(el):
        if side(l) == "old":
            out.add(chain(l)[1])
    return out


def widest(E, w, sd, conts, seen=()):
    """Is w at least the length of every row of that side?  True, False, or None where that is not clear."""
    if is_len_of(w, sd, conts) or w in seen:
        return True
    if w.op == "c":
        return False
    if w.op == "gate":
        out = []
        for p, l in paths(w):
            v = widest(E, l, sd, conts, seen)
            if v is False and any(is_len_of(y, sd, conts) or y in conts for a, lab in p if lab != "Some" for y in deep(E, a)):
                v = None
            out.append(v)
        return False if False in out else None if None in out else True
    if w.op == "dfld":
        return widest(E, w.a[0], sd, conts, seen)
    if w.op == "call" and w.a[0].rsplit("::", 1)[-1] == "max":
        ts = [y for y in w.a[1:] if isinstance(y, T)]
        vs = [widest(E, y, sd, conts, seen) for y in (ts[1:2] if len(ts) == 3 else ts)]
        if len(ts) == 3 and vs == [None] and not any(is_len_of(y, sd, conts) for y in deep(E, ts[1])):
            return False
        return True if True in vs else None if None in vs else False
    if w.op == "rec" and w.id in E.rec_info and E.rec_info[w.id][1] is not None:
        init, step = E.rec_info[w.id][:2]
        if not (step.op == "call" and step.a[0].rsplit("::", 1)[-1] == "max" and w in step.a):
            return None
        vs = [widest(E, init, sd, conts, seen)] + [widest(E, y, sd, conts, seen) for y in step.a[1:] if isinstance(y, T) and y is not w]
        return True if True in vs else None if None in vs else False
    return None


def is_len_of(x, sd, conts):
    """x is a length (or element) of the old / new rows"""
    if x.op == "call" and x.a[0] == "len":
        t = x.a[1]
        if sd == "new":
            return any(y.op == "fld" and y.a[1] in ("rows", "cells", "spreadsheet") and ("sym" in str(chain(y)[1].op)) for y in subterms(t))
        return t in conts or side(t) == "old" or chain(t)[1] in conts or (t.op == "elem" and any(l in conts for l in leaves(t.a[0])))
    return False


def excel(ctx):
    E = excel_root(ctx)
    st = evs(E, "Cell::set_style")
    if not ctx.ob("excel:style", bool(st), "nothing is written"):
        return
    g = FALSE
    for e in st + evs(E, "Cell::set_value_bool", "Cell::set_value_string", "Cell::set_value_number", "Cell::set_formula", "Worksheet::add_comments",
                      "Worksheet::get_cell_mut"):
        g = b_or(g, e.guard)
    g = only_true(g)
    got = [e for e in evs(E, "Worksheet::get_cell")]
    ats = atoms_of(g)
    exist = [a for a in ats if a.op == "a.disc" and any(x.op == "call" and x.a[0].endswith("Worksheet::get_cell") for x in [a.a[0]])]
    ow = [a for a in ats if a.a[0].op == "fld" and a.a[0].a[1] == "overwrite_values"]
    if not ctx.ob("excel:consults existing", len(exist) == 1 and len(ow) == 1, "writing does not depend on the existing cell and on the overwrite setting", where(st[0])):
        return
    for e in st + evs(E, "Cell::set_value_bool", "Cell::set_value_string", "Cell::set_value_number", "Cell::set_formula", "Worksheet::add_comments"):
        keep = restrict(restrict(only_true(e.guard), exist[0], "Some"), ow[0], False)
        ctx.ob("excel:kept:" + e.path.rsplit("::", 1)[-1], keep is FALSE or keep is DEAD, "%s happens on an existing cell though overwriting is off" % e.path.rsplit("::", 1)[-1], where(e))
    a = restrict(restrict(g, exist[0], "None"), ow[0], False)
    b = restrict(restrict(g, exist[0], "Some"), ow[0], True)
    c = restrict(restrict(g, exist[0], "None"), ow[0], True)
    ctx.ob("excel:written", a is b and b is c and a is not FALSE, "a compiled cell is not written where nothing exists or overwriting is on", where(st[0]))
    # whatever the cell, its row and their place, and for every cell
    d = assume(a, lambda x: "Some" if x.op == "a.disc" and x.a[0].op == "next" else None)
    odd = [x for x in atoms_of(d) if of_element(x)]
    ctx.ob("excel:every cell", not odd, "some compiled cells are not written where nothing exists: it depends on %s" % [show(x, 4)[:100] for x in odd][:2], where(st[0]))
    for lid in E.latch:
        if st[0].fnkey == lid[0] or lid in st[0].loops:
            lc = within(E, lid)
            ctx.ob("excel:every cell", all(l in (TRUE, DEAD) for l in leaves(lc)), "cells after some are not written", where(st[0]))
    muts = evs(E, "Worksheet::get_cell_mut")
    same_pos = got and muts and {e.args[1] for e in got} == {e.args[1] for e in muts}
    ctx.ob("excel:same position", same_pos, "the existing cell consulted is not the one written", where(st[0]))
    # the workbook is the existing one when there is one
    wr = evs(E, "writer::xlsx::write", "xlsx::write")
    rd = evs(E, "reader::xlsx::read", "xlsx::read", "xlsx::lazy_read")
    if ctx.ob("excel:file", bool(wr) and bool(rd), "the workbook is not read or not written"):
        ctx.ob("excel:same file", all(e.args[-1] is wr[0].args[-1] for e in rd), "the workbook read is not the one written", where(rd[0]))
        ex = [at for at in atoms_of(rd[0].guard) if at.a[0].op == "call" and at.a[0].a[0].endswith("exists")]
        new = evs(E, "new_file_empty_worksheet", "new_file")
        for e in new:
            if not ex:
                ctx.ob("excel:reuses file", False, "a new workbook is made whether or not the file exists", where(e))
            else:
                ctx.ob("excel:reuses file", restrict(only_true(e.guard), ex[0], True) is FALSE, "a new workbook replaces the existing file", where(e))
        ns = evs(E, "Spreadsheet::new_sheet", "Spreadsheet::add_sheet", "Spreadsheet::set_sheet_collection", "Spreadsheet::remove_sheet", "Spreadsheet::remove_sheet_by_name")
        for e in ns:
            sh = [at for at in atoms_of(e.guard) if at.op == "a.disc" and at.a[0].op == "call" and "get_sheet_by_name" in at.a[0].a[0]]
            ok = bool(sh) and all(restrict(only_true(e.guard), at, "Some") is FALSE for at in sh)
            ctx.ob("excel:reuses sheet", ok, "%s though the worksheet exists" % e.path.rsplit("::", 1)[-1], where(e))
        rm = [e for e in E.events if e.path.startswith("umya_spreadsheet") and e.path.rsplit("::", 1)[-1].startswith(("remove_", "clear", "cleanup", "set_sheet_collection"))]
        ctx.ob("excel:nothing removed", not rm, "the writer removes existing content: %s" % [e.path for e in rm][:2], where(rm[0]) if rm else "")


def of_element(x):
    """Does the term depend on the element (or its position) of an iteration?"""
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if not isinstance(y, T) or y.id in seen:
            continue
        seen.add(y.id)
        if y.op in ("elem", "pos"):
            return True
        if y.op == "call" and y.a[0].rsplit("::", 1)[-1] == "max":
            continue
        todo += [z for z in y.a if isinstance(z, T)]
    return False


def within(E, lid):
    """Does the loop go on, given that it had an element (the loops inside of it are over, and no number overflows)?"""
    def f(a):
        if a.op == "a.val" and a.a[0].op == "bin" and a.a[0].a[0] == "Lt" and a.a[0].a[1] is c_int(2 ** 32 - 1):
            return False
        if a.op == "a.disc" and a.a[0].op == "next":
            q = a.a[0].a[0]
            return "Some" if q.op == "rec" and tuple(q.a[:len(lid)]) == tuple(lid) else "None"
    return assume(E.latch[lid], f)


def google(ctx):
    E, ret = google_root(ctx)
    if E is None:
        return
    cds = evs(E, "RowData::RowData")
    if not ctx.ob("google:rows", bool(cds), "no row data is built"):
        return
    e = cds[0]
    vals = hoist(agg_field(e, "values"))
    els = [elem_of(y) for l in leaves(vals) if l.op == "adt" and l.a[1] == "Some" for y in leaves(l.a[2])]
    if not ctx.ob("google:cells built", els and els[0] is not None, "cannot see what a row is made of", where(e)):
        return
    el = ite(only_true(e.guard), els[0], DEAD)

    def is_new(l):
        return l.op == "adt" and l.a[0].endswith("::CellData") and bool(new_cells(l))

    def is_empty(l):
        return l.op == "call" and l.a[0] == "default"
    table(ctx, "google", el, where(e), is_new, lambda l: side(l) == "old", is_empty)
    olds = {tuple(indices(l)) for l in leaves(el) if side(l) == "old"}
    news = {tuple(indices(x)) for l in leaves(el) for x in new_cells(l)}
    ok = len(olds) == 1 and len(news) == 1
    if ok:
        (o,), (n,) = olds, news
        ok = placed(o, n)
    ctx.ob("google:same position", ok, "the existing value merged is not the one at the position written (row + y offset, column + x offset): %s" % (
        [[show(x, 4)[:60] for x in o] for o in olds]), where(e))
    for x in n if ok else ():
        i = x.a[0] if x.op == "elem" else x
        if i.op == "adt" and i.a[0].endswith("Range"):
            ends = list(deep(E, i.a[3]))
            ctx.ob("google:covers all", i.a[2] is c_int(0) and not any(y.op == "call" and y.a[0] == "min" for y in ends) and any(y.op == "call" and y.a[0] == "len" for y in ends),
                   "existing values to the right of the compiled row are cut off", where(e))


def sums(t, out):
    if t.op == "bin" and t.a[0] in ("Add", "AddUnchecked"):
        sums(t.a[1], out)
        sums(t.a[2], out)
    elif t.op in ("cast", "conv"):
        sums([x for x in t.a if isinstance(x, T)][0], out)
    else:
        out.append(t)
    return out


def placed(old, new):
    """old = [column accesses..., row access] from the inside out"""
    def off(i):
        return lambda t: t.op == "fld" and t.a[1] in (i, str(i)) and t.a[0].op == "fld" and t.a[0].a[1] == "offset"
    if len(new) != 2 or len(old) not in (2, 3):
        return False
    row = sums(old[-1], [])
    col = []
    for x in old[:-1]:
        if x.op == "adt" and x.a[0].endswith(("RangeFrom", "RangeFull")):
            col += sums(x.a[2], []) if len(x.a) > 2 else []
        else:
            col += sums(x, [])
    def match(ts, base, i):
        return len(ts) == 2 and any(x is base for x in ts) and any(off(i)(x) for x in ts)
    return match(row, new[1], 1) and match(col, new[0], 0)


def safe_flag(ctx):
    fn = ctx.fn(name="try_from", self_has="config::Config", trait="core::convert::TryFrom")
    E = ctx.engine()
    ctx.run(E, fn, ["cli"])
    cs = evs(E, "config::Config::Config")
    ctx.floor("Config constructions", len(cs), 1)
    for e in cs:
        v = agg_field(e, "overwrite_values")
        ctx.ob("safe flag", v is b_not(boolify(fld(sym("cli", fn.locals[1]), "safe"))), "--safe does not turn overwriting off: %s" % (show(v, 4) if v is not None else None), where(e))


def reader(ctx):
    """what of the existing CSV file is seen"""
    fn = ctx.fn("read", self_has="::Csv")
    E = ctx.engine()
    r = all_collected(E, ctx.run(E, fn, ["path", "output"]))
    recs = [t for l in leaves(r) for t in deep(E, l) if t.op == "elem" and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] in ("records", "into_records")]
    if not ctx.ob("read:records", bool(recs), "cannot see the records of the existing file"):
        return
    src = recs[0].a[0]
    for t in subterms(src):
        if t.op in ("upd", "call") and any("ReaderBuilder" in e.path and e.path.split("::")[-1] == t.a[0].split("::")[-1] for e in E.events):
            n = t.a[0].split("::")[-1]
            ok = n in ("new", "default", "from_reader", "from_path") or n == "flexible" and t.a[3] is TRUE or n == "has_headers" and t.a[3] is FALSE or \
                n in ("buffer_capacity",)
            ctx.ob("read:option " + n, ok, "the existing file is read with %s, which hides part of it" % show(t, 2)[:80])
    cfg = {t.a[0].split("::")[-1] for t in subterms(src) if t.op == "upd"}
    ctx.ob("read:first line", "has_headers" in cfg, "the first line of the existing file is taken as a header")
    ctx.ob("read:ragged", "flexible" in cfg, "rows of different lengths are not accepted")
    rows = [t for l in leaves(r) for t in deep(E, l) if t.op == "coll" and any(y.op == "adt" and y.a[0].endswith("::ExistingCell") for y in leaves(t.a[1]))]
    if not ctx.ob("read:cells", bool(rows), "cannot see the existing cells"):
        return
    row = rows[0]
    el = mk("elem", row.a[0])
    want = mk_gate(atom_val(mk("call", "len", el)), {0: mk("adt", "X", "Empty")}, mk("adt", "X", "Value", el))
    got = lift(None, lambda l: mk("adt", "X", *[strip(a) for a in l.a[1:]]) if l.op == "adt" else l, row.a[1])
    for a in atoms_of(got):
        if a is atom_val(el) and {l for p, _ in paths(got) for b, l in p if b is a} <= {"", None}:               # compared with "", not by its length
            got = mk_gate(atom_val(mk("call", "len", el)), {0: given(got, (a, ""))}, given(got, (a, None)))
    ok, a, b = same(got, want)
    ctx.ob("read:fields", ok, "an existing field must be seen as empty exactly when it is: " + diff(a, b))
    ctx.ob("read:every field", row.a[0] is dfld(recs[0], "Ok"), "not every field of a record is read: %s" % show(row.a[0], 5)[:100])
    # errors: only a file that is not there counts as no existing values
    opens = [e for e in evs(E, "File::open")]
    for e in opens:
        bad = only_true(b_and(b_not(okd(e.ret)), okd(r)))
        ok = all(any(lab == "NotFound" for _, lab in p) for p, l in paths(bad) if l is TRUE)
        ctx.ob("read:unreadable file", ok, "an existing file that cannot be read is treated as empty and overwritten", where(e))
    ctx.ob("read:unreadable record", record_errors(E, r, recs[0]),
           "a record that cannot be read is skipped")


def google_reader(ctx):
    """what of the existing sheet is seen"""
    f = ctx.fn("write", self_has="::GoogleSheets")
    E = ctx.engine(opaque=lambda g: g.name in ("build", "sheets_hub") and g.local)
    r = ctx.run(E, f, ["self", "module"])
    bs = [e for e in E.events if e.kind == "call" and e.path.endswith("::build") and "BatchUpdateBuilder" in e.path]
    gets = evs(E, "SpreadsheetMethods::get")
    aws = [e for e in E.events if e.path == "await" and any(x is g.ret for g in gets for x in subterms(e.args[0]))]
    aws = [e for e in aws if e.args[0].op == "call" and e.args[0].a[0].endswith("::doit") and "GetCall" in e.args[0].a[0]] or aws
    if not ctx.ob("google read:found", len(bs) == 1 and len(gets) == 1 and len(aws) == 1, "the sheet is not read exactly once before it is updated (%d %d %d)" % (len(bs), len(gets), len(aws))):
        return
    b, g, a = bs[0], gets[0], aws[0]
    ctx.ob("google read:grid data", any(x.op in ("call", "upd") and x.a[0].endswith("include_grid_data") and x.a[-1] is TRUE for x in subterms(a.args[0])),
           "the sheet is read without its cells", where(a))
    ctx.ob("google read:same sheet", g.args[1] is fld(sym("self", f.locals[1]), "sheet_id"), "another sheet is read: %s" % show(g.args[1], 3), where(g))
    bad = b_and(only_true(b.guard), b_not(okd(a.ret)))
    ctx.ob("google read:unreadable sheet", all(any(lab == 404 and any(y is a.ret for y in deep(E, at)) for at, lab in p) for p, l in paths(bad) if l is TRUE),
           "a sheet that cannot be read is treated as empty and overwritten: " + show(bad, 4)[:150], where(b))
    ex = given(hoist(E.field(b.args[0], "existing_values")), (atom_disc(a.ret, RESULT), "Ok"))
    full = []
    for p, l in paths(ex):
        cells = E.field(l, "cells")
        if any(at.op == "a.disc" and lab == "None" and any(y is a.ret for y in subterms(at)) for at, lab in p):
            continue
        full.append(cells)
        none = [at for at, lab in p if at.op == "a.disc" and lab in ("Err", "BadRequest")]
        ctx.ob("google read:data present", not none, "cells depend on a failed read")
    if not ctx.ob("google read:cells", len(full) == 1, "%d cases of existing cells" % len(full)):
        return
    c = full[0]
    row = each_in_order(E, c, E.isrc(c.a[0]) if c.op == "coll" else c)
    if not ctx.ob("google read:every row", row is not None and c.a[0].op not in ("skip", "take", "filter", "rev"), "not every row of the sheet is kept in order: %s" % show(c, 4)[:150]):
        return
    src = c.a[0]
    names = [x.a[1] for x in subterms(src) if x.op == "fld"]
    ctx.ob("google read:rows of the first sheet", any("row_data" == n for n in names) and any(x is a.ret for x in subterms(src)) and
           all(x.op != "call" or x.a[0].split("::")[-1] not in ("last", "skip", "rev") for x in subterms(src)), "rows come from " + show(src, 3)[:100])
    rel = mk("elem", src)
    vals = fld(rel, "values")
    for p, l in paths(row):
        if any(at is atom_disc(vals, "core::option::Option") and lab == "None" for at, lab in p):
            ctx.ob("google read:empty row", empty_seq(l), "a row without values is seen as " + show(l, 3)[:80])
            continue
        cell = each_in_order(E, l, dfld(vals, "Some"))
        ctx.ob("google read:every cell", cell is not None, "not every cell of a row is kept in order: " + show(l, 4)[:120])
        if cell is None:
            continue
        el = mk("elem", dfld(vals, "Some"))
        for q, v in paths(cell):
            if v.op == "adt" and v.a[1] == "Empty" and any("value" in show(at, 9) and any(y is el for y in subterms(at)) for at, lab in q):
                continue
            ctx.ob("google read:cell kept", v.op == "adt" and v.a[1] == "Value" and v.a[2] is el, "an existing cell is seen as " + show(v, 3)[:80])
    # and they go back in one request to that same sheet
    ups = evs(E, "SpreadsheetMethods::batch_update")
    aw = [e for e in E.events if e.path == "await" and any(x is u.ret for u in ups for x in subterms(e.args[0]))]
    if ctx.ob("google write:sent", len(ups) == 1 and len(aw) == 1, "the request is not sent exactly once"):
        u = ups[0]
        ctx.ob("google write:request", u.args[1] is b.ret and u.args[2] is g.args[1], "sent is (%s) to %s" % (show(u.args[1], 2)[:60], show(u.args[2], 3)[:60]), where(u))
        ctx.ob("google write:doit", any(e.path.endswith("SpreadsheetBatchUpdateCall::doit") and e.ret is aw[0].args[0] for e in E.events), "the request is never sent", where(u))


def record_errors(E, r, rec):
    """an unreadable record ends in an error, not in a shorter sheet"""
    at = atom_disc(rec, RESULT)
    return any(l.op == "adt" and l.a[1] == "Err" and any(a is at and lab == "Err" for a, lab in p) for p, l in paths(r)) and \
        all(not (l.op == "adt" and l.a[1] == "Ok" and any(a is at and lab == "Err" for a, lab in p)) or
            any(lab == "None" and a.a[0].op == "next" for a, lab in p) for p, l in paths(r))


def strip(t):
    while isinstance(t, T) and t.op == "call" and t.a[0] in ("to_string", "to_owned", "clone", "from", "into"):
        t = t.a[1]
    return t


def check(ctx):
    csv(ctx)
    reader(ctx)
    excel(ctx)
    google(ctx)
    google_reader(ctx)
    safe_flag(ctx)
