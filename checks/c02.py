"""C02: formatting options reach the Excel file."""
from sa.terms import *
from sa.q import *

TITLE = "Cell formatting options reach Excel as the matching cell style"
RULE = ("The Excel target's write() is evaluated whole over the gated value-flow graph of its MIR. For every umya style setter "
        "the value finally handed over, as a decision diagram over the cell's option fields, must equal the specified table "
        "(all variants of every option enum, all Option states), and the setter's effect must flow into the style which "
        "set_style gives to the cell at that position.")
O = "csvpp::cell_options::"


def enum(t, e, table):
    adt = O + e
    return case(t, adt, {k: c_str(v) if isinstance(v, str) else v for k, v in table.items()})


def adt_path(ctx, name):
    c = [p for p in ctx.F.adts if p.startswith("csvpp::") and p.endswith("::" + name)]
    return c[0] if c else "csvpp::?::" + name


def excel_root(ctx):
    E = ctx.engine()
    fn = ctx.fn(name="write", trait="csvpp::target::CompilationTarget", self_has="::Excel")
    ctx.run(E, fn, ["self", "module"])
    all_collected(E, UNIT)
    return E


def find_owner(events, field):
    """The term X such that the events' arguments or guards depend on X.<field>."""
    for e in events:
        for t in list(e.args) + [e.guard]:
            for x in subterms(t):
                if x.op == "fld" and x.a[1] == field:
                    return x.a[0]
    return None


def color_dd(t):
    """-> (expected AARRGGBB term, known wrong RRGGBBAA term), given the pieces used by the code"""
    return t


def check(ctx):
    E = excel_root(ctx)
    A = lambda n: adt_path(ctx, n)
    st = evs(E, "Cell::set_style")
    ctx.floor("set_style calls", len(st), 1)
    if not st:
        return
    cell = find_owner(evs(E, "Alignment::set_horizontal"), "horizontal_align")
    ctx.ob("cell:found", cell is not None, "no option of the cell reaches Alignment::set_horizontal")
    if cell is None:
        return
    G0 = FALSE
    for e in st:
        G0 = b_or(G0, e.guard)
    G0 = only_true(G0)
    opts = ["border_color", "border_style", "borders", "color", "font_color", "font_family", "font_size",
            "horizontal_align", "number_format", "text_formats", "text_wrap", "vertical_align"]
    dep = [o for o in opts if any(fld(cell, o) in set(subterms(a)) for a in atoms_of(G0))]
    ctx.ob("style:unconditional", not dep, "whether a new cell gets its style depends on %s" % dep, where(st[0]))
    style = NOTSET
    for e in st:
        style = ite(e.guard, e.args[1], style)
    inside = set()
    for e in st:
        inside |= set(deep(E, e.args[1]))

    def contains(coll, adt, v):
        return boolify(mk("call", "contains", coll, mk("adt", adt, v)))

    F = lambda n: fld(cell, n)
    some_ = lambda n, v: case(F(n), OPTION, {"Some": v, "None": NOTSET})
    BS, TF = A("BorderSide"), A("TextFormat")
    U = lambda ty: next((p for p in ctx.F.adts if p.startswith("umya_spreadsheet") and p.endswith("::" + ty)), "?" + ty)
    uv = lambda ty, v: mk("adt", U(ty), v)
    HV, VV = "HorizontalAlignmentValues", "VerticalAlignmentValues"

    def table(sink, want, argi=1, normal=None):
        """The value of `sink` for a new cell must be `want`."""
        es = evs(E, sink)
        if not ctx.ob("present:" + sink, bool(es), "nothing calls %s any more" % sink):
            return
        got = final(es, argi)
        if normal:
            got = lift(None, normal, got)
        ok, a, b = same(got, want, G0)
        ctx.ob("table:" + sink, ok, ok or diff(a, b, G0), where(es[0]))
        flow(sink, es)

    def flow(sink, es):
        for i, e in enumerate(es):
            n = mk("upd", e.path, 0, *e.args)
            ctx.ob("flow:%s:%d" % (sink, i), n in inside, "the effect of %s never reaches the style given to set_style" % sink, where(e))

    table("Alignment::set_horizontal", case(F("horizontal_align"), A("HorizontalAlign"), {
        "Left": uv(HV, "Left"), "Center": uv(HV, "Center"), "Right": uv(HV, "Right")}))
    table("Alignment::set_vertical", case(F("vertical_align"), A("VerticalAlign"), {
        "Top": uv(VV, "Top"), "Center": uv(VV, "Center"), "Bottom": uv(VV, "Bottom")}))
    unfalse = lambda x: NOTSET if x is FALSE else x
    table("Alignment::set_wrap_text", case(F("text_wrap"), A("TextWrap"), {"Wrap": TRUE, "Clip": NOTSET, "Overflow": NOTSET}), normal=unfalse)
    table("NumberingFormat::set_format_code", case(F("number_format"), A("NumberFormat"), {k: c_str(v) for k, v in {
        "Currency": "$#,##0_-", "Date": "yyyy-mm-dd", "DateTime": "d/m/yy h:mm", "Number": "0", "Percent": "0%",
        "Text": "@", "Time": "h:mm AM/PM", "Scientific": "0.00E+00"}.items()}))
    for fmt, sink, v in (("Bold", "set_bold", TRUE), ("Italic", "set_italic", TRUE), ("Strikethrough", "set_strikethrough", TRUE),
                         ("Underline", "set_underline", c_str("single"))):
        table("Font::" + sink, ite(contains(F("text_formats"), TF, fmt), v, NOTSET), normal=unfalse)
    uncast = lambda x: x.a[1] if x.op in ("cast", "conv") and isinstance(x.a[1], T) else x
    table("Font::set_size", some_("font_size", dfld(F("font_size"), "Some")), normal=uncast)
    table("Font::set_name", some_("font_family", dfld(F("font_family"), "Some")))

    # borders
    styles = case(F("border_style"), A("BorderStyle"), {k: c_str(v) for k, v in {
        "Dashed": "dashed", "Dotted": "dotted", "Double": "double", "Solid": "thin", "SolidMedium": "medium", "SolidThick": "thick"}.items()})
    hasall = contains(F("borders"), BS, "All")
    for side in ("Left", "Right", "Top", "Bottom"):
        sink = "Borders::set_%s_border" % side.lower()
        es = evs(E, sink)
        if not ctx.ob("present:" + sink, bool(es), "nothing calls %s any more" % sink):
            continue
        g = FALSE
        for e in es:
            g = b_or(g, e.guard)
        want = b_or(hasall, contains(F("borders"), BS, side))
        ok, a, b = same_cond(g, want, G0)
        ctx.ob("sides:" + side, ok, ok or "the %s border: %s" % (side, diff(a, b, G0)), where(es[0]))
        flow(sink, es)
        for e in es:
            sub = list(deep(E, e.args[1]))
            sets = [x for x in sub if x.op == "upd" and x.a[0].endswith("Border::set_border_style")]
            ok = len({x.a[3] for x in sets}) == 1 and undead(sets[0].a[3], NOTSET) is styles
            ctx.ob("style-of:" + side, ok, "the border style of the %s side does not follow border_style" % side, where(e))
    # colours
    hexes = lambda o: ("r", "g", "b")
    def colour(key, field, sink_events, argi):
        rgb = dfld(F(field), "Some")
        want_g = is_variant(F(field), OPTION, "Some")
        g = FALSE
        for e in sink_events:
            g = b_or(g, e.guard)
        return rgb, want_g, g
    def hexfmt(t, rgb):
        """'RGBA', 'ARGB', … when t writes the channels of rgb as two-digit hex, else None"""
        if t.op != "fmt":
            return None
        s = ""
        for p in t.a:
            if p.op == "c" and p.a[0] == "s":
                if p.a[1] != "FF":
                    return None
                s += "A"
            elif p.op == "disp" and p.a[0].startswith("UpperHex") and "w2" in p.a[0] and any(p.a[2] is fld(rgb, ch) for ch in "rgb"):
                s += next(ch for ch in "rgb" if p.a[2] is fld(rgb, ch)).upper()
            else:
                return None
        return s
    def order(key, t, rgb, w):
        o = hexfmt(t, rgb)
        if o == "RGBA":
            ctx.ob("rgba-order:" + key, False, "%s is written as RRGGBBAA where Excel reads AARRGGBB" % key, w)
        else:
            ctx.ob("color:" + key, o == "ARGB", "%s is written as %s" % (key, o or show(t, 5)), w)
    argb = [e for e in evs(E, "Color::set_argb")]
    for key, field, sink in (("background", "color", "Style::set_background_color"), ("font", "font_color", "Font::set_color"),
                             ("border", "border_color", "Border::set_color")):
        es = evs(E, sink)
        if not ctx.ob("present:" + sink, bool(es), "nothing calls %s any more" % sink):
            continue
        rgb, want_g, g = colour(key, field, es, 1)
        base = G0
        if key == "border":
            a, b = only_true(b_and(g, want_g)), only_true(g)   # only with a colour
            bs = FALSE
            for s in ("left", "right", "top", "bottom"):
                for e in evs(E, "Borders::set_%s_border" % s):
                    bs = b_or(bs, e.guard)
            ok = implies(b_and(only_true(bs), want_g), only_true(g)) and a is b
            for s in ("left", "right", "top", "bottom"):
                for e in evs(E, "Borders::set_%s_border" % s):
                    x = assume(e.args[1], lambda at: "Some" if at.op == "a.disc" and at.a[0] is F(field) else None)
                    ok = ok and any(y.op == "upd" and y.a[0].endswith("Border::set_color") for y in subterms(x))
            ctx.ob("when:border color", ok, "border color is not applied exactly when the cell has one", where(es[0]))
        else:
            ctx.ob("when:" + key, only_true(b_and(G0, g)) is only_true(b_and(G0, want_g)),
                   "the %s color is not applied exactly when the cell has one" % key, where(es[0]))
            flow(sink, es)
        for e in es:
            vals = [e.args[1]] if key == "background" else [y.a[3] for y in subterms(e.args[1]) if y.op == "upd" and y.a[0].endswith("Color::set_argb")]
            ctx.ob("color-source:" + key, bool(vals), "no color value found", where(e))
            for v in vals[:1]:
                order(key, v, rgb, where(e))

    # notes go on the cell's own comment
    notes = evs(E, "RichText::set_text")
    g = FALSE
    for e in notes:
        g = b_or(g, e.guard)
        ctx.ob("note:text", e.args[1] is dfld(F("note"), "Some"), "the comment's text is not the cell's note", where(e))
    ctx.ob("note:when", bool(notes) and only_true(b_and(G0, g)) is only_true(b_and(G0, some(F("note")))), "a note is not written exactly when the cell has one")
    add = evs(E, "Worksheet::add_comments")
    ctx.ob("note:added", bool(add) and all(any(y.op in ("upd", "fld") for y in subterms(e.args[1])) for e in add), "comments are never added")
    # lock
    lock = evs(E, "Protection::set_locked", "Style::set_protection")
    ctx.ob("lock", bool(lock), "`lock` never reaches the style (no call sets a cell's protection)")
