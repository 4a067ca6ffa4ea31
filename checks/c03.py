"""C03: formatting options reach the Google Sheets request."""
import struct
import copy
import re
from sa.terms import *
from sa.q import *
from checks.c02 import find_owner, adt_path

TITLE = "Cell formatting options reach Google Sheets as the matching cell format"
RULE = ("The function building the BatchUpdateSpreadsheetRequest is evaluated whole over the gated value-flow graph of its MIR. Every "
        "field of the CellData/CellFormat/TextFormat/Borders values built for a new cell, as a decision diagram over the cell's "
        "option fields, must equal the specified table, and that CellData must be in the returned request.")


def google_root(ctx):
    fns = ctx.fns(lambda f: f.locals[0].endswith("::BatchUpdateSpreadsheetRequest") and not f.closure)
    ctx.ob("anchor:request builder", len(fns) >= 1, "no function returns a BatchUpdateSpreadsheetRequest")
    if not fns:
        return None, None
    fn = min(fns, key=lambda f: len(f.key))
    E = ctx.engine()
    ret = all_collected(E, ctx.run(E, fn))
    return E, ret


def isdef(t):
    """A field left at its default."""
    return t.op == "fld" and t.a[0].op in ("call", "default", "k") and "default" in show(t.a[0], 1)


def agg_field(e, name):
    adt = e.raw
    fs = fields_of(adt, adt.split("::")[-1])
    return e.args[fs.index(name)] if fs and name in fs else None


def masked(ctx, E, *words):
    """The update request lets these fields of a cell be written."""
    for e in evs(E, "UpdateCellsRequest::UpdateCellsRequest"):
        t = agg_field(e, "fields")
        names = [n.strip() for y in (subterms(t) if t is not None else ()) if y.op == "c" and isinstance(y.a[1], str) for n in y.a[1].split(",")]
        names = [re.sub("_", "", n).lower() for n in names]
        if not names:
            ctx.notes.append("the field mask of an update is not constant")
            continue
        for w in words:
            ctx.ob("request: writes %s" % w, "*" in names or w.lower() in names, "the update only writes the fields %s of a cell" % ", ".join(names), where(e))


def made(x, at):
    e = copy.copy(at[0])
    e.path = e.raw = x.a[0]
    e.args, e.ret, e.guard = list(x.a[2:]), x, TRUE
    return e


def build(ctx):
    E, ret = google_root(ctx)
    if E is None:
        return None
    cds = evs(E, "CellData::CellData")
    if not cds:                             # not written as a literal: those in the request
        cds = [made(x, evs(E, "CellFormat::CellFormat")[:1] or E.events[:1]) for x in deep(E, ret) if x.op == "adt" and x.a[0].endswith("::CellData")]
    ctx.floor("CellData constructions", len(cds), 1)
    if not cds:
        return None
    cell = find_owner(cds, "horizontal_align") or find_owner(evs(E, "CellFormat::CellFormat"), "horizontal_align")
    ctx.ob("cell:found", cell is not None, "no option of the cell reaches the CellData")
    if cell is None:
        return None
    return E, ret, cds, cell


def check(ctx):
    b = build(ctx)
    if b is None:
        return
    E, ret, cds, cell = b
    A = lambda n: adt_path(ctx, n)
    F = lambda n: fld(cell, n)
    e = cds[0]
    masked(ctx, E, "userEnteredFormat", "note")
    g0 = FALSE
    for x in cds:
        g0 = b_or(g0, x.guard)
    inret = set(deep(E, ret))
    NONE = mk("adt", OPTION, "None")
    S = lambda t: mk("adt", OPTION, "Some", t)

    def norm(t):
        """defaults and None are the same"""
        def f(x):
            return NONE if isdef(x) or x is NONE else x
        return hoist(lift(None, f, t))

    def get(t, name):
        """Field `name` of an Option<api struct> or api struct diagram; NONE where absent."""
        def f(x):
            if x is NONE or isdef(x) or x is DEAD:
                return NONE
            if x.op == "adt" and x.a[0] == OPTION and x.a[1] == "Some":
                return lift(None, f, x.a[2])
            if x.op == "adt":
                fs = fields_of(x.a[0], x.a[1])
                if fs and name in fs:
                    return norm(x.a[2 + fs.index(name)])
            return mk("unknown", x)
        return lift(None, f, t)

    def ob(key, got, want, w):
        if got is None:
            ctx.ob("table:" + key, False, "field is gone", w)
            return
        ok, a, b = same(norm(got), want, g0, NONE)
        ctx.ob("table:" + key, ok, ok or diff(a, b, g0), w)

    v = NONE
    for x in cds:
        v = ite(x.guard, x.ret if x.ret is not None else NONE, v)
    fmt = get(v, "user_entered_format")
    w = where(e)
    ctx.ob("flow:request", any(x.ret in inret for x in cds), "the CellData built for a new cell is not part of the request", w)
    ob("note", get(v, "note"), F("note"), w) if False else None
    T = lambda field, enum, tab: case(F(field), A(enum), {k: S(c_str(s)) for k, s in tab.items()})
    ob("horizontal_alignment", get(fmt, "horizontal_alignment"), T("horizontal_align", "HorizontalAlign", {"Left": "LEFT", "Center": "CENTER", "Right": "RIGHT"}), w)
    ob("vertical_alignment", get(fmt, "vertical_alignment"), T("vertical_align", "VerticalAlign", {"Top": "TOP", "Center": "MIDDLE", "Bottom": "BOTTOM"}), w)
    ob("wrap_strategy", get(fmt, "wrap_strategy"), T("text_wrap", "TextWrap", {"Wrap": "WRAP", "Overflow": "OVERFLOW_CELL", "Clip": "CLIP"}), w)
    ob("number_format.type_", get(get(fmt, "number_format"), "type_"), T("number_format", "NumberFormat", {
        "Currency": "CURRENCY", "Date": "DATE", "DateTime": "DATE_TIME", "Number": "NUMBER", "Percent": "PERCENT", "Text": "TEXT",
        "Time": "TIME", "Scientific": "SCIENTIFIC"}), w)

    def has(coll, enum, v):
        return boolify(mk("call", "contains", F(coll), mk("adt", A(enum), v)))
    tf = get(fmt, "text_format")
    unf = lambda t: lift(None, lambda x: NONE if x is S(FALSE) else x, t)
    for name, field in (("Bold", "bold"), ("Italic", "italic"), ("Strikethrough", "strikethrough"), ("Underline", "underline")):
        ob("text_format." + field, unf(get(tf, field)), ite(has("text_formats", "TextFormat", name), S(TRUE), NONE), w)

    def opt(field, some):
        return case(F(field), OPTION, {"Some": some, "None": NONE})

    def unopt(t):
        """strip conversions from Some(x)"""
        def f(x):
            if x.op == "adt" and x.a[1] == "Some" and x.a[2].op in ("cast", "conv"):
                y = [z for z in x.a[2].a if isinstance(z, T_)]
                return S(y[0]) if y else x
            if x.op == "adt" and x.a[1] == "Some":
                return x
            if x is F("font_family") or x is F("font_size") or x is F("note"):
                return case(x, OPTION, {"Some": S(dfld(x, "Some")), "None": NONE})
            return x
        return lift(None, f, t)
    ob("text_format.font_size", unopt(get(tf, "font_size")), opt("font_size", S(dfld(F("font_size"), "Some"))), w)
    ob("text_format.font_family", unopt(get(tf, "font_family")), opt("font_family", S(dfld(F("font_family"), "Some"))), w)
    ob("note", unopt(get(v, "note")), opt("note", S(dfld(F("note"), "Some"))), w)

    def color(key, style, field, under=None):
        rgb = dfld(F(field), "Some")
        c = get(style, "rgb_color")
        for ch, chan in (("red", "r"), ("green", "g"), ("blue", "b")):
            got = get(c, ch)
            def f(x):
                if x is NONE:
                    return NONE
                srcs = {y for y in subterms(x) if y.op == "fld" and y.a[0] is rgb}
                others = {y for y in subterms(x) if y.op == "dfld" and y.a[1] == "Some" and y is not rgb and y is not cell and any(z is cell for z in subterms(y))}
                if srcs == {fld(rgb, chan)} and not others and x.op == "adt" and x.a[1] == "Some" and scaled(x.a[2]):
                    return S(mk("chan", chan))
                return x
            got = lift(None, f, hoist(assume(got, finite)))
            want = opt(field, S(mk("chan", chan)))
            if under is not None:
                want = ite(under, want, NONE)
            ob(key + "." + ch, got, want, w)
        al = get(c, "alpha")
        ctx.ob("alpha:" + key, all(l is NONE for l in leaves(al)), "the color of %s is given an alpha" % key, w)

    color("background", get(fmt, "background_color_style"), "color")
    bg = get(fmt, "background_color")
    ctx.ob("background:one", all(l is NONE for l in leaves(bg)), "background_color competes with background_color_style", w)
    color("font", get(tf, "foreground_color_style"), "font_color")
    bs = get(fmt, "borders")
    styles = T("border_style", "BorderStyle", {"Dashed": "DASHED", "Dotted": "DOTTED", "Double": "DOUBLE", "Solid": "SOLID", "SolidMedium": "SOLID_MEDIUM", "SolidThick": "SOLID_THICK"})
    for side in ("Top", "Bottom", "Left", "Right"):
        want = b_or(has("borders", "BorderSide", "All"), has("borders", "BorderSide", side))
        b = get(bs, side.lower())
        ob("borders.%s.style" % side.lower(), get(b, "style"), ite(want, styles, NONE), w)
        color("borders." + side.lower(), get(b, "color_style"), "border_color", want)


from sa.terms import T as T_


def finite(at):
    """a channel divided by 255 is never infinite"""
    if at.op == "a.val" and at.a[0].op == "bin" and at.a[0].a[0] == "Eq":
        x = [y for y in at.a[0].a[1:] if y.op == "c"]
        z = [y for y in at.a[0].a[1:] if y.op != "c"]
        if len(x) == 1 and len(z) == 1 and fl(x[0]) == float("inf") and scaled(z[0]):
            return False
    return None


def fl(c):
    """numeric value of a constant; floats are kept as bit patterns"""
    v = c.a[1]
    if isinstance(v, str) and v.startswith("0x"):
        n = int(v, 16)
        return struct.unpack("<f", struct.pack("<I", n))[0] if n < 1 << 32 else struct.unpack("<d", struct.pack("<Q", n))[0]
    return float(v)


def scaled(t):
    """u8 -> fraction of 255: a division by 255 (or the multiplication by its inverse) of a converted channel"""
    while t.op in ("cast", "conv"):
        t = [x for x in t.a if isinstance(x, T_)][0]
    if t.op != "bin":
        return False
    k = t.a[2]
    return k.op == "c" and t.a[1].op in ("fld", "cast", "conv") and (
        t.a[0] == "Div" and fl(k) == 255.0 or t.a[0] == "Mul" and abs(fl(k) - 1 / 255.0) < 1e-6)
