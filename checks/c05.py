"""C05: cell values in every target."""
from sa.terms import *
from sa.q import *
from checks.c02 import excel_root, find_owner, adt_path
from checks.c03 import build, agg_field, isdef, masked
from checks.c06 import csv_root, new_cells

TITLE = "A cell's value reaches every target with its type"
RULE = ("For Excel and Google Sheets the kind of value set (boolean, text, number, formula, nothing) and the value itself, as a decision "
        "diagram over the cell's ast and text, must equal one table; the CSV field must be '=' followed by the rendered formula, or the text.")


def table(ctx, cell, eq):
    NODE = adt_path(ctx, "Node")
    ast = dfld(fld(cell, "ast"), "Some")
    return ast, NODE


def spec(ctx, cell, node, ast, prefix):
    NODE = adt_path(ctx, "Node")
    text = fmt_of(prefix, mk("disp", "Display", "csvpp::ast::Ast", ast))
    formula = mk("put", "formula", text)

    def num(v):
        return ite(is_variant(dfld(node, v, "sign"), OPTION, "None"),
                   ite(boolify(dfld(node, v, "percentage")), formula, mk("put", "number", dfld(node, v, "value"))), formula)
    t = case(node, NODE, {"Boolean": mk("put", "bool", dfld(node, "Boolean")), "Text": mk("put", "string", dfld(node, "Text")),
                          "Float": num("Float"), "Integer": num("Integer")}, formula)
    text = fld(cell, "parsed_value")
    return case(fld(cell, "ast"), OPTION, {"Some": t, "None": ite(empty(text), NOTSET, mk("put", "string", text))})


def empty(t):
    return mk_gate(atom_val(mk("call", "len", t)), {0: TRUE}, FALSE)


def fmt_of(prefix, d):
    return mk("fmt", c_str(prefix), d) if prefix else mk("fmt", d)


def nocast(x):
    while x.op in ("cast", "conv"):
        x = [y for y in x.a if isinstance(y, T)][0]
    return x


def node_of(ctx, E, cell, dd):
    """The term whose variants the code distinguishes (the node inside the cell's ast)."""
    NODE = adt_path(ctx, "Node")
    ast = dfld(fld(cell, "ast"), "Some")
    for at in atoms_of(dd):
        if at.op == "a.disc" and at.a[1] == NODE and any(x is ast for x in subterms(at.a[0])):
            return at.a[0], ast
    return None, ast


def excel(ctx):
    E = excel_root(ctx)
    cell = find_owner(evs(E, "Alignment::set_horizontal"), "horizontal_align")
    g0 = FALSE
    for e in evs(E, "Cell::set_style"):
        g0 = b_or(g0, e.guard)
    if cell is None:
        ctx.ob("excel:cell", False, "no cell option reaches the style")
        return
    got = NOTSET
    sinks = {"set_value_bool": "bool", "set_value_string": "string", "set_value_number": "number", "set_formula": "formula"}
    es = [e for e in evs(E, *["Cell::" + s for s in sinks])]
    other = [e for e in E.events if e.path.startswith("umya_spreadsheet::structs::cell::Cell::set_") and
             e.path.rsplit("::", 1)[-1] not in sinks and not e.path.endswith("set_style")]
    ctx.ob("excel:only known setters", not other, "a cell's value is also set by %s" % sorted({e.path for e in other}), where(other[0]) if other else "")
    ctx.floor("excel value setters", len(es), 4)
    for e in es:
        k = sinks[e.path.rsplit("::", 1)[-1]]
        got = ite(e.guard, mk("put", k, nocast(e.args[1])), got)
    node, ast = node_of(ctx, E, cell, got)
    if not ctx.ob("excel:typed", node is not None, "the kind of value does not depend on the cell's ast"):
        return
    want = spec(ctx, cell, node, ast, "")
    ok, a, b = same(got, want, only_true(g0))
    ctx.ob("excel:value", ok, ok or diff(a, b, g0), where(es[0]))
    tg = {e.args[0] for e in evs(E, "Cell::set_style")}
    pos = [e for e in evs(E, "Worksheet::get_cell_mut")]
    ctx.ob("excel:same cell", len({e.args[1] for e in pos}) == 1, "values and styles are put on different cells")


def google(ctx):
    b = build(ctx)
    if b is None:
        return
    E, ret, cds, cell = b
    masked(ctx, E, "userEnteredValue")
    g0, v = FALSE, NOTSET
    NONE = mk("adt", OPTION, "None")
    for e in cds:
        g0 = b_or(g0, e.guard)
        x = agg_field(e, "user_entered_value")
        v = ite(e.guard, x if x is not None else NONE, v)

    def f(x):
        if x is NONE or isdef(x):
            return NOTSET
        if x.op == "adt" and x.a[1] == "Some":
            return lift(None, ext, x.a[2])
        return mk("unknown", x)

    def ext(x):
        if x.op != "adt":
            return x
        out = []
        fs = fields_of(x.a[0], x.a[1])
        for name, val in zip(fs, x.a[2:]):
            if isdef(val) or val is NONE:
                continue
            if val.op == "adt" and val.a[1] == "Some":
                kind = {"bool_value": "bool", "string_value": "string", "number_value": "number", "formula_value": "formula"}.get(name, name)
                out.append(mk("put", kind, nocast(val.a[2])))
            else:
                out.append(mk("unknown", val))
        return out[0] if len(out) == 1 else mk("many", *out)
    got = lift(None, f, hoist(v))
    node, ast = node_of(ctx, E, cell, got)
    if not ctx.ob("google:typed", node is not None, "the kind of value does not depend on the cell's ast"):
        return
    want = spec(ctx, cell, node, ast, "=")
    ok, a, b = same(got, want, only_true(g0))
    ctx.ob("google:value", ok, ok or diff(a, b, g0), where(cds[0]))


def csv(ctx):
    root = csv_root(ctx)
    if root is None:
        return
    E, el, rec = root
    n = 0
    for l in leaves(el):
        if new_cells(l):
            n += 1
            ok = l.op == "fmt" and len(l.a) == 1 and l.a[0].op == "disp" and l.a[0].a[0] == "Display" and l.a[0].a[1].endswith("cell::Cell")
            ctx.ob("csv:field", ok, "the CSV field of a new cell is not the cell's text form: %s" % show(l, 4)[:200], where(rec))
    ctx.floor("csv fields of new cells", n, 1)


def check(ctx):
    excel(ctx)
    google(ctx)
    csv(ctx)
    display(ctx)


def display(ctx):
    """What a cell prints: "=" followed by the formula, or its text."""
    c = ctx.fn(name="fmt", trait="core::fmt::Display", self_has="csvpp::cell::Cell")
    E, cell, out = printed(ctx, c)
    ast = dfld(fld(cell, "ast"), "Some")
    want = case(fld(cell, "ast"), OPTION, {"Some": fmt_of("=", mk("disp", "Display", "csvpp::ast::Ast", ast)), "None": fld(cell, "parsed_value")})
    ok, a, b = same(flat(out), want)
    ctx.ob("csv:text", ok, ok or diff(a, b), c.span)
