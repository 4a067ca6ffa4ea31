"""C01: the option keywords of cells and rows and their values."""
from sa.terms import *
from sa.q import *

TITLE = "Cell and row options are read as documented"
RULE = ("The option dispatcher is evaluated with the lexer's tokens as unknowns.  For every documented keyword (and alias), for cells and for "
        "rows, the final state of the parser's cell and row is compared with the initial one: exactly the documented field changes, to the "
        "value the documented value table gives for every documented value; unknown keywords and values are errors.")

CO = "csvpp::cell_options::"
ENUMS = {
    "borders": (CO + "border_side::BorderSide", {"all": "All", "a": "All", "top": "Top", "t": "Top", "bottom": "Bottom", "b": "Bottom", "left": "Left",
                                                 "l": "Left", "right": "Right", "r": "Right"}),
    "border_style": (CO + "border_style::BorderStyle", {"dashed": "Dashed", "dash": "Dashed", "dotted": "Dotted", "dot": "Dotted", "double": "Double",
                                                        "dbl": "Double", "solid": "Solid", "1": "Solid", "solid_medium": "SolidMedium", "2": "SolidMedium",
                                                        "solid_thick": "SolidThick", "3": "SolidThick"}),
    "horizontal_align": (CO + "horizontal_align::HorizontalAlign", {"left": "Left", "l": "Left", "center": "Center", "c": "Center", "right": "Right", "r": "Right"}),
    "vertical_align": (CO + "vertical_align::VerticalAlign", {"bottom": "Bottom", "b": "Bottom", "center": "Center", "c": "Center", "top": "Top", "t": "Top"}),
    "number_format": (CO + "number_format::NumberFormat", {"currency": "Currency", "c": "Currency", "date": "Date", "d": "Date", "datetime": "DateTime",
                                                           "dt": "DateTime", "number": "Number", "n": "Number", "percent": "Percent", "p": "Percent",
                                                           "text": "Text", "time": "Time", "t": "Time", "scientific": "Scientific", "s": "Scientific"}),
    "text_formats": (CO + "text_format::TextFormat", {"bold": "Bold", "b": "Bold", "italic": "Italic", "i": "Italic", "strikethrough": "Strikethrough",
                                                      "s": "Strikethrough", "underline": "Underline", "u": "Underline"}),
    "text_wrap": (CO + "text_wrap::TextWrap", {"wrap": "Wrap", "w": "Wrap", "overflow": "Overflow", "o": "Overflow", "clip": "Clip", "c": "Clip"}),
}
OPTIONS = {
    "border": "borders", "b": "borders", "bordercolor": "border_color", "bc": "border_color", "borderstyle": "border_style", "bs": "border_style",
    "color": "color", "c": "color", "fill": "fill", "f": "fill", "fontcolor": "font_color", "fc": "font_color", "fontfamily": "font_family",
    "ff": "font_family", "fontsize": "font_size", "fs": "font_size", "halign": "horizontal_align", "ha": "horizontal_align", "lock": "lock", "l": "lock",
    "note": "note", "n": "note", "numberformat": "number_format", "nf": "number_format", "text": "text_formats", "t": "text_formats",
    "validate": "data_validation", "dv": "data_validation", "valign": "vertical_align", "va": "vertical_align", "var": "var", "v": "var",
    "wrap": "text_wrap", "w": "text_wrap",
}
COLORS = ("border_color", "color", "font_color")
V = {  # name -> variant, operand tokens
    "custom": ("Custom", "S"), "c": ("Custom", "S"), "date_after": ("DateAfter", "D"), "date_gt": ("DateAfter", "D"), "date_before": ("DateBefore", "D"),
    "date_lt": ("DateBefore", "D"), "date_between": ("DateBetween", "DD"), "date_btwn": ("DateBetween", "DD"), "date_equal_to": ("DateEqualTo", "D"),
    "date_eq": ("DateEqualTo", "D"), "date_is_valid": ("DateIsValid", ""), "is_date": ("DateIsValid", ""), "is_valid_email": ("TextIsValidEmail", ""),
    "is_email": ("TextIsValidEmail", ""), "is_valid_url": ("TextIsValidUrl", ""), "is_url": ("TextIsValidUrl", ""),
    "date_not_between": ("DateNotBetween", "DD"), "date_nbtwn": ("DateNotBetween", "DD"), "date_on_or_after": ("DateOnOrAfter", "D"),
    "date_gte": ("DateOnOrAfter", "D"), "date_on_or_before": ("DateOnOrBefore", "D"), "date_lte": ("DateOnOrBefore", "D"),
    "number_between": ("NumberBetween", "NN"), "number_btwn": ("NumberBetween", "NN"), "num_btwn": ("NumberBetween", "NN"),
    "number_equal_to": ("NumberEqualTo", "N"), "number_eq": ("NumberEqualTo", "N"), "num_eq": ("NumberEqualTo", "N"),
    "number_greater_than": ("NumberGreaterThan", "N"), "number_gt": ("NumberGreaterThan", "N"), "num_gt": ("NumberGreaterThan", "N"),
    "number_greater_than_or_equal_to": ("NumberGreaterThanOrEqualTo", "N"), "number_gte": ("NumberGreaterThanOrEqualTo", "N"),
    "num_gte": ("NumberGreaterThanOrEqualTo", "N"), "number_less_than": ("NumberLessThan", "N"), "number_lt": ("NumberLessThan", "N"),
    "num_lt": ("NumberLessThan", "N"), "number_less_than_or_equal_to": ("NumberLessThanOrEqualTo", "N"), "number_lte": ("NumberLessThanOrEqualTo", "N"),
    "num_lte": ("NumberLessThanOrEqualTo", "N"), "number_not_between": ("NumberNotBetween", "NN"), "number_nbtwn": ("NumberNotBetween", "NN"),
    "num_nbtwn": ("NumberNotBetween", "NN"), "number_not_equal_to": ("NumberNotEqualTo", "N"), "number_neq": ("NumberNotEqualTo", "N"),
    "num_neq": ("NumberNotEqualTo", "N"), "text_contains": ("TextContains", "S"), "text_does_not_contain": ("TextDoesNotContain", "S"),
    "text_equal_to": ("TextEqualTo", "S"), "text_eq": ("TextEqualTo", "S"), "in_list": ("ValueInList", None), "in_range": ("ValueInRange", None),
}


def opaque(g):
    return g.key.startswith("csvpp::parser::cell_lexer") or g.name in ("into_parse_error", "deprecated_feature") or "CellParseError" in (g.self_ty or "")


def get(E, st, *path):
    def f(x):
        for p in path:
            x = E.field(x, p)
        return x
    return lift(None, f, st)


def deref(E, v):
    """values the parser holds by reference"""
    return lift(None, lambda x: E.state.get(x, x) if x.op == "sym" else x, v)


class Table:
    """the effect of a dispatcher: keyword -> changed fields"""

    def __init__(self, ctx, root, extra_opaque, probe):
        self.ctx = ctx
        self.f = ctx.fn(root, self_has="CellParser")
        self.E = ctx.engine(opaque=lambda g: opaque(g) or extra_opaque(g))
        self.r = ctx.run(self.E, self.f, ["self"])
        self.self0 = sym("self", self.f.locals[1])
        self.st = self.E.load(self.E.state, self.self0, ())
        self.ok = b_and(only_true(self.E.retc), only_true(okd(self.r)))
        ats = atoms_with(self.ok, probe)
        if not ats:
            from sa.check import Missing
            raise Missing("dispatch on %r in %s" % (probe, root))
        self.kw = ats[0]
        self.row = [a for a in atoms_of(self.st) | atoms_of(self.ok) if a.op == "a.val" and a.a[0] is fld(self.self0, "is_row_options")]
        self.cache = {}

    def at(self, dd, kw, isrow):
        d = restrict(dd, self.kw, kw)
        return restrict(d, self.row[0], isrow) if self.row else d

    def value(self, kw, isrow, side, field):
        k = (side, field)
        if k not in self.cache:
            self.cache[k] = (get(self.E, self.st, side, field), fld(self.self0, side, field))
        v, old = self.cache[k]
        return self.at(v, kw, isrow), old


def fields(ctx, name):
    adt = next(a for k, a in ctx.F.adts.items() if k.endswith(name))
    return [x[0] if isinstance(x, (list, tuple)) else x for x in (adt["variants"][0][2])]


def changed(T, ctx, kw, isrow, cells, rows):
    ok = T.at(T.ok, kw, isrow)
    out = []
    for side, fs in (("cell", cells), ("row", rows)):
        for f in fs:
            v, old = T.value(kw, isrow, side, f)
            v2 = undead(ite(ok, v, old), old)
            if v2 is not old:
                out.append((side, f, v2))
    return ok, out


def leaf_values(v, old):
    return [l for l in leaves(v) if l is not old and l is not DEAD and l is not CONT]


def token_of(t, kinds):
    """the lexer calls a value is made from, as (kind, position in the token stream)"""
    out = []
    for x in subterms(t):
        if x.op == "call" and x.a[0].split("::")[-1] in ("take_token", "take_option_right_side"):
            n = x.a[0].split("::")[-1]
            depth = sum(1 for y in subterms(x.a[1]) if y.op == "upd")
            out.append((x.a[2].a[1] if n == "take_token" and len(x.a) > 2 and x.a[2].op == "adt" else "right side", depth))
    return sorted(set(out), key=lambda p: p[1])


def string_in(t, token):
    """is t exactly the text of that token?"""
    while t.op == "call" and t.a[0].split("::")[-1] in ("to_string", "clone", "to_owned", "into", "from"):
        t = t.a[1]
    return t.op == "fld" and t.a[1] == "str_match" and t.a[0].op in ("dfld",) and t.a[0].a[1] == "Ok" and kind(t.a[0].a[0]) == token


def kind(x):
    if x.op != "call":
        return None
    n = x.a[0].split("::")[-1]
    if n == "take_option_right_side":
        return "right side"
    return x.a[2].a[1] if n == "take_token" and x.a[2].op == "adt" else None


def unsome(l):
    return l.a[2] if l.op == "adt" and l.a[0] == OPTION and l.a[1] == "Some" else None


def lowered(at):
    t = at.a[0]
    return t.op == "call" and t.a[0].split("::")[-1] in ("to_lowercase", "to_ascii_lowercase") and string_in(t.a[1], "right side")


def enum_table(T, ctx, key, ok, v, old, adt, table, isset):
    probe = next(iter(table))
    ats = atoms_with(ok, probe)
    if not ctx.ob(key + ":values", len(ats) == 1 and (lowered(ats[0]) or string_in(ats[0].a[0], "right side")), "the value is not looked up by the text after `=`"):
        return
    at = ats[0]
    ctx.ob(key + ":any case", lowered(at), "values are only accepted in lower case")
    for word, want in table.items():
        ls = leaf_values(restrict(v, at, word), old)
        good = bool(ls)
        for l in ls:
            x = l
            if isset:
                x = restrict(l.a[3], at, word) if l.op == "upd" and l.a[0].split("::")[-1] == "insert" and l.a[2] is old else None
            good = good and x is not None and x.op == "adt" and x.a[0].split("::")[-1] == adt.split("::")[-1] and x.a[1] == want
        ctx.ob("%s=%s" % (key, word), good, "%s=%s gives %s instead of %s%s" % (key, word, [show(l, 3)[:60] for l in ls][:2], want, " added to those asked for before" if isset else ""))
        ctx.ob("%s=%s:accepted" % (key, word), satisfiable(restrict(ok, at, word)), "%s=%s is rejected" % (key, word))
    for word in labels_of(ok, at) - set(table):
        ctx.ob("%s:%s" % (key, word), not satisfiable(restrict(ok, at, word)), "%s=%s is accepted but not documented" % (key, word))
    ctx.ob(key + ":unknown value", not satisfiable(restrict(ok, at, OTHER)), "an unknown value of %s is accepted" % key)


def options(ctx):
    cells, rows = fields(ctx, "cell::Cell"), fields(ctx, "row::Row")
    T = Table(ctx, "option", lambda g: g.name == "validate" and not g.closure, "border")
    ctx.floor("cell fields", len(cells), 10)
    ctx.ob("keyword token", string_in(T.kw.a[0], "OptionName"), "options are not dispatched on the option name: %s" % show(T.kw.a[0], 4)[:100])
    ctx.ob("unknown keyword", not satisfiable(T.at(T.ok, OTHER, True)) and not satisfiable(T.at(T.ok, OTHER, False)), "an unknown option is accepted")
    for w in labels_of(T.ok, T.kw) - set(OPTIONS):
        ctx.ob("undocumented:" + w, not (satisfiable(T.at(T.ok, w, True)) or satisfiable(T.at(T.ok, w, False))), "the undocumented option %s is accepted" % w)
    ctx.ob("row flag", bool(T.row), "options of rows and cells are not told apart")
    for kw, field in OPTIONS.items():
        for isrow in (False, True):
            side = "row" if isrow else "cell"
            key = "%s:%s" % (side, kw)
            ok, ch = changed(T, ctx, kw, isrow, cells, rows)
            if field == "fill" and not isrow:
                ctx.ob(key, not satisfiable(ok), "fill is accepted in a cell's options")
                continue
            if field == "data_validation":
                vs = [e for e in T.E.events if e.path.split("::")[-1] == "validate" and e.args and e.args[0] is T.self0]
                ctx.ob(key, len(vs) == 1 and satisfiable(T.at(only_true(vs[0].guard), kw, isrow)) and implies(ok, only_true(okd(vs[0].ret))),
                       "%s does not declare a validation" % kw)
                continue
            if not ctx.ob(key + ":sets", [(s, f) for s, f, _ in ch] == [(side, field)], "[[%s]] must set the %s's %s, it sets %s" % (
                    kw, side, field, [(s, f) for s, f, _ in ch])):
                continue
            v = ch[0][2]
            old = fld(T.self0, side, field)
            always = not any(l is old for l in leaves(lift(None, lambda o, x: x if o is TRUE else DEAD, ok, v)))
            ctx.ob(key + ":always", always, "[[%s]] is accepted without effect in some case" % kw)
            ls = leaf_values(v, old)
            if field in ENUMS:
                enum_table(T, ctx, key, ok, v, old, ENUMS[field][0], ENUMS[field][1], field in ("borders", "text_formats"))
            elif field in COLORS:
                for l in ls:
                    color(ctx, key, unsome(l))
                ctx.floor(key + " values", len(ls), 1)
            elif field in ("font_family", "note"):
                ctx.ob(key, bool(ls) and all(unsome(l) is not None and string_in(unsome(l), "String") for l in ls), "the value is %s" % [show(l, 4)[:80] for l in ls])
            elif field == "var":
                ctx.ob(key, bool(ls) and all(unsome(l) is not None and string_in(unsome(l), "right side") for l in ls), "the value is %s" % [show(l, 4)[:80] for l in ls])
            elif field == "font_size":
                ctx.ob(key, bool(ls) and all(unsome(l) is not None and parsed_int(unsome(l)) for l in ls), "the value is %s" % [show(l, 4)[:80] for l in ls])
            elif field == "lock":
                ctx.ob(key, ls == [TRUE], "the value is %s" % [show(l, 3) for l in ls])
            elif field == "fill":
                good = bool(ls)
                kinds = set()
                for l in ls:
                    x = unsome(l)
                    good = good and x is not None and x.op == "adt" and x.a[0].endswith("Fill")
                    if good:
                        amount = get(T.E, x, "amount")
                        start = get(T.E, x, "start_row")
                        good = good and any(y is fld(T.self0, "row_a1") for y in subterms(start))
                        for y in leaves(amount):
                            kinds.add(y.a[1] if y.op == "adt" else y.op)
                            good = good and y.op == "adt" and (y.a[1] == "None" or parsed_int(y.a[2]))
                ctx.ob(key, good and kinds == {"Some", "None"}, "fill is set to %s" % [show(l, 4)[:100] for l in ls])


def parsed_int(t):
    return t.op == "dfld" and t.a[1] == "Ok" and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] == "parse" and string_in(t.a[0].a[1], "PositiveNumber")


def color(ctx, key, x):
    """RRGGBB or RGB, each component from its own digits"""
    if not ctx.ob(key, x is not None and x.op == "adt" and x.a[0].endswith("Rgb") and len(x.a) == 5, "the color is %s" % (show(x, 3)[:80] if x is not None else None)):
        return
    for i, comp in enumerate(x.a[2:5]):
        for l in leaves(comp):
            if l is DEAD or l is CONT:
                continue
            rd = [t for t in subterms(l) if t.op == "call" and t.a[0].endswith("from_str_radix")]
            sl = [t for t in subterms(l) if t.op == "idx" and t.a[1].op == "adt" and t.a[1].a[0].split("::")[-1] in ("Range", "RangeTo", "RangeFrom") and
                  all(y.op == "c" for y in t.a[1].a[2:])]
            good = len(rd) == 1 and rd[0].a[2].op == "c" and rd[0].a[2].a[1] == 16 and len({t.a[1] for t in sl}) == 1
            if good:
                r = sl[0].a[1]
                lo, hi = (0, r.a[2].a[1]) if r.a[0].endswith("RangeTo") else (r.a[2].a[1], None) if r.a[0].endswith("RangeFrom") else (r.a[2].a[1], r.a[3].a[1])
                twice = any(t.op == "call" and t.a[0].endswith("repeat") and t.a[2].op == "c" and t.a[2].a[1] == 2 for t in subterms(l))
                # (the last one may go on to the end)
                good = (lo, hi if hi is not None else {(4, False): 6, (2, True): 3}.get((lo, twice)), twice) in ((2 * i, 2 * i + 2, False), (i, i + 1, True))
            ctx.ob("%s:%s" % (key, "rgb"[i]), good, "the %s component is %s" % ("red green blue".split()[i], show(l, 7)[:160]))


def validations(ctx):
    cells, rows = fields(ctx, "cell::Cell"), fields(ctx, "row::Row")
    T = Table(ctx, "validate", lambda g: False, "date_after")
    ctx.ob("validate:by name", lowered(T.kw) or string_in(T.kw.a[0], "right side"), "validations are not looked up by their name")
    ctx.ob("validate:unknown", not satisfiable(T.at(T.ok, OTHER, True)) and not satisfiable(T.at(T.ok, OTHER, False)), "an unknown validation is accepted")
    n = 0
    for kw, (variant, ops) in V.items():
        n += 1
        for isrow in (False, True):
            side = "row" if isrow else "cell"
            key = "%s:validate=%s" % (side, kw)
            ok, ch = changed(T, ctx, kw, isrow, cells, rows)
            if not ctx.ob(key + ":accepted", satisfiable(ok), "validate=%s is rejected although documented" % kw):
                continue
            if not ctx.ob(key + ":sets", [(s, f) for s, f, _ in ch] == [(side, "data_validation")], "validate=%s must set the %s's validation, it sets %s" % (
                    kw, side, [(s, f) for s, f, _ in ch])):
                continue
            old = fld(T.self0, side, "data_validation")
            ls = leaf_values(ch[0][2], old)
            good = bool(ls)
            for l in ls:
                x = unsome(l)
                good = good and x is not None and x.op == "adt" and x.a[1] == variant
                if good and ops is not None:
                    good = len(x.a) - 2 == len(ops)
                    seen = []
                    for o, a in zip(ops, x.a[2:]):
                        tk = token_of(a, None)
                        want = {"S": "String", "D": "Date", "N": "Number"}[o]
                        mine = [p for p in tk if p[0] == want]
                        good = good and bool(mine)
                        if mine:
                            seen.append(mine[-1][1])
                    good = good and seen == sorted(set(seen))
            ctx.ob(key, good, "validate=%s declares %s" % (kw, [show(l, 4)[:110] for l in ls][:2]))
    ctx.floor("validations", n, 40)


READS = {"maybe_take_date": "Date", "maybe_take_number": "Number", "maybe_take_single_quoted_string": "String", "maybe_take_identifier": "Identifier"}


def in_list(ctx):
    """Each value of a list is a date, else a number, else a quoted text, else an identifier; all are kept, in order, up to the closing parenthesis."""
    for f in ctx.fns(lambda g: g.key.startswith("csvpp") and "cell_parser" in g.key and not g.closure and g.name == "validate_value_in_list")[:1]:
        E = ctx.engine(opaque=lambda g: g.key.startswith("csvpp") and (g.name in READS or g.name in ("take_token", "peek_close_parenthesis", "unknown_string", "into_parse_error")
                                                                       or g.name == "try_from" and "Ast" in g.key))
        r = ctx.run(E, f, ["self"])
        made = [e for e in E.events if e.path.split("::")[-1] == "try_from"]
        if not made:
            ctx.notes.append("in_list: not analysed")
            return
        for e in made:
            t = e.args[0]
            by = {}
            for x in subterms(t):
                if x.op == "call" and x.a[0].split("::")[-1] in READS:
                    by.setdefault(READS[x.a[0].split("::")[-1]], set()).add(x)

            def outcome(got):
                """the tokens of t when exactly the kinds in got (name -> True, False) are there"""
                def choose(a):
                    x = a.a[0]
                    if a.op != "a.disc":
                        return None
                    for k, xs in by.items():
                        if k not in got:
                            continue
                        for y in xs:
                            if k == "String":
                                if x is y:
                                    return "Ok"
                                if x is dfld(y, "Ok"):
                                    return "Some" if got[k] else "None"
                            elif x is y:
                                return "Some" if got[k] else "None"
                    return None
                return [l for l in leaves(assume(t, choose)) if l not in (DEAD, CONT)]
            some = lambda k: {dfld(y, "Some") if k != "String" else dfld(dfld(y, "Ok"), "Some") for y in by.get(k, ())}
            ctx.ob("in_list: kinds of values", set(by) == set(READS.values()), "a value of a list is one of %s" % sorted(by), f.span)
            if set(by) != set(READS.values()):
                continue
            for k, got in (("Date", {"Date": True, "String": False}), ("Number", {"Date": False, "Number": True, "String": False}),
                           ("String", {"Date": False, "Number": False, "String": True}), ("Identifier", {"Date": False, "Number": False, "String": False, "Identifier": True})):
                ls = outcome(got)
                ctx.ob("in_list: a %s" % k.lower(), bool(ls) and set(ls) <= some(k), "a %s in a list is read as %s" % (k.lower(), [show(l, 2)[-60:] for l in ls]), f.span)
        pushes = [e for e in E.events if e.path.split("::")[-1] == "push" and any(m.ret in subterms(e.args[1]) for m in made)]
        n = 0
        for rid, (init, step, fnkey, rec) in list(E.rec_info.items()):
            if not any(p.args[0] is rec for p in pushes):
                continue
            n += 1
            ls = [l for l in leaves(step) if l not in (DEAD, CONT)]
            ok = all(l.op == "upd" and l.a[0].split("::")[-1] in ("push", "upd:push") and rec in l.a for l in ls)
            ctx.ob("in_list: kept", bool(ls) and ok, "values of a list are collected as %s" % [show(l, 3)[:60] for l in ls], f.span)
        if not n:
            ctx.notes.append("in_list: how values are kept is not analysed")


def check(ctx):
    options(ctx)
    validations(ctx)
    in_list(ctx)
