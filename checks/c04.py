"""C04: data validations reach both targets with the right rule, operands and cell."""
import re
from sa.terms import *
from sa.q import *
from checks.c02 import adt_path, excel_root, find_owner
from checks import c03

TITLE = "Data validations are exported with the right rule, operands and cell"
RULE = ("Under the assumption of each DataValidation variant in turn, the validation object which the evaluated Excel write() and "
        "Google request builder hand to their library must carry the condition type, operator and operands (by provenance: which "
        "field of the variant each operand came from) of the specified table, at the cell that carries it.")

# what a message says about the rule
WORDS = ("not", "between", "after", "before", "equal", "greater", "less", "than or", "on or", "contain")
# variant -> (excel type, excel operator, google type)
DATE = {"DateAfter": ("GreaterThan", "DATE_AFTER"), "DateBefore": ("LessThan", "DATE_BEFORE"), "DateBetween": ("Between", "DATE_BETWEEN"),
        "DateEqualTo": ("Equal", "DATE_EQ"), "DateNotBetween": ("NotBetween", "DATE_NOT_BETWEEN"),
        "DateOnOrAfter": ("GreaterThanOrEqual", "DATE_ON_OR_AFTER"), "DateOnOrBefore": ("LessThanOrEqual", "DATE_ON_OR_BEFORE")}
NUM = {"NumberBetween": ("Between", "NUMBER_BETWEEN"), "NumberEqualTo": ("Equal", "NUMBER_EQ"), "NumberGreaterThan": ("GreaterThan", "NUMBER_GREATER"),
       "NumberGreaterThanOrEqualTo": ("GreaterThanOrEqual", "NUMBER_GREATER_THAN_EQ"), "NumberLessThan": ("LessThan", "NUMBER_LESS"),
       "NumberLessThanOrEqualTo": ("LessThanOrEqual", "NUMBER_LESS_THAN_EQ"), "NumberNotBetween": ("NotBetween", "NUMBER_NOT_BETWEEN"),
       "NumberNotEqualTo": ("NotEqual", "NUMBER_NOT_EQ")}
FORMULA = {  # 'P' the cell's position, 'T' the text of the variant
    "DateIsValid": ("=ISNUMBER(DAY(", "P", "))"), "TextContains": ('=ISNUMBER(SEARCH("', "T", '", ', "P", "))"),
    "TextDoesNotContain": ('=NOT(ISNUMBER(SEARCH("', "T", '", ', "P", ")))"), "TextEqualTo": ("P", ' = "', "T", '"'),
    "TextIsValidEmail": ('=ISNUMBER(MATCH("*@*.?*", ', "P", ", 0))"), "TextIsValidUrl": ("=RegExpMatch(", "P", ', "^http")')}
GTEXT = {"Custom": "CUSTOM_FORMULA", "DateIsValid": "DATE_IS_VALID", "TextContains": "TEXT_CONTAINS", "TextDoesNotContain": "TEXT_NOT_CONTAINS",
         "TextEqualTo": "TEXT_EQ", "TextIsValidEmail": "TEXT_IS_EMAIL", "TextIsValidUrl": "TEXT_IS_URL", "ValueInList": "ONE_OF_LIST",
         "ValueInRange": "ONE_OF_RANGE"}


def pieces(t):
    """A string-valued term as a flat list of literals and displayed values."""
    if t.op == "fmt":
        out = []
        for p in t.a:
            out += pieces(p)
        return out
    if t.op == "disp":
        return pieces(t.a[2]) if t.a[2].op in ("fmt",) or (t.a[2].op == "c" and t.a[2].a[0] == "s") else [t.a[2]]
    if t.op == "c" and t.a[0] == "s":
        return [t.a[1]]
    return [t]


def under(t, *pairs):
    """Restrict every test of the variant of a term."""
    m = {(x, adt): v for x, adt, v in pairs}

    def choose(at):
        if at.op == "a.disc":
            return m.get((at.a[0], at.a[1]))
        return None
    return assume(t, choose)


def one(t):
    ls = leaves(t)
    return ls[0] if len(ls) == 1 else None


def check(ctx):
    DV = adt_path(ctx, "DataValidation")
    DT = adt_path(ctx, "DateTime")
    vs = variants_of(DV) or []
    ctx.floor("DataValidation variants", len(vs), 24)
    excel(ctx, DV, DT, vs)
    google(ctx, DV, DT, vs)


def strdate(t):
    """the panics of impossible dates never return"""
    return t


def excel(ctx, DV, DT, vs):
    E = excel_root(ctx)
    es = evs(E, "DataValidations::set_data_validation_list", "DataValidations::add_data_validation_list")
    if not ctx.ob("excel:present", bool(es), "no validations are handed to the worksheet"):
        return
    e = es[0]
    el = E.elem(e.args[1]) if "set_" in e.path else e.args[1]
    put = evs(E, "Worksheet::set_data_validations", "Worksheet::add_data_validations")
    ctx.ob("excel:worksheet", bool(put) and any(x.op == "upd" and x.a[0] == e.path for p in put for x in deep(E, p.args[1])) or
           "worksheet" in e.path.lower() or any("get_data_validations_mut" in show(x, 2) for x in subterms(e.args[0])),
           "the validations never reach the worksheet", where(e))
    dv = None
    for x in subterms(el):
        if x.op == "a.disc" and x.a[1] == DV:
            dv = x.a[0]
    if not ctx.ob("excel:variant", dv is not None, "the exported validation does not depend on the cell's data_validation", where(e)):
        return
    ok = dv.op == "dfld" and dv.a[0].op == "fld" and dv.a[0].a[1] == "data_validation"
    ctx.ob("excel:source", ok, "the exported validation is %s, not the cell's own" % show(dv, 5), where(e))
    cell = dv.a[0].a[0] if ok else None
    # position of the cell that owns the validation
    pos = set()
    for s in evs(E, "Worksheet::get_cell_mut"):
        pos |= set(pieces(s.args[1]))
    # which cells get one: those that are newly written and have one
    push = [p for p in E.events if p.path.endswith("Vec::push") and any(x is dv for x in subterms(p.args[1]))]
    st = evs(E, "Cell::set_style")
    if push and st and cell is not None:
        g, g0 = FALSE, FALSE
        for p in push:
            g = b_or(g, p.guard)
        for p in st:
            g0 = b_or(g0, p.guard)
        ok, a, b = same_cond(g, some(fld(cell, "data_validation")), g0)
        ok2 = implies(only_true(g), only_true(g0))
        ctx.ob("excel:when", ok and ok2, "a validation is not exported exactly for the new cells that have one: " + ("" if ok else diff(a, b, g0)), where(push[0]))

    def field(t, name):
        """value given by the outermost set_<name> in a chain of setters"""
        while t.op == "upd":
            if t.a[0].endswith("::set_" + name) and t.a[1] == 0:
                return t.a[3]
            t = t.a[2]
        return None
    DVO, DVT = "DataValidationOperatorValues", "DataValidationValues"
    for v in vs:
        t = under(el, (dv, DV, v), *[(dfld(dv, v, i), DT, "Date") for i in "01"])
        t = assume(t, lambda at: "Some" if at.op == "a.disc" and at.a[1] == OPTION and at.a[0].op == "call" and "from_ymd_opt" in at.a[0].a[0] else None)
        t = one(t)
        k = "excel:%s:" % v
        if not ctx.ob(k + "defined", t is not None, "several different validations, or none, for %s" % v, where(e)):
            continue
        ty, op, f1, f2 = field(t, "type"), field(t, "operator"), field(t, "formula1"), field(t, "formula2")
        fl = lambda x: x.a[1] if x is not None and x.op == "adt" else None
        wty = "Date" if v in DATE else "Decimal" if v in NUM else "List" if v.startswith("ValueIn") else "Custom"
        wop = DATE[v][0] if v in DATE else NUM[v][0] if v in NUM else None
        ctx.ob(k + "type", fl(ty) == wty, "%s is exported with type %s, not %s" % (v, fl(ty), wty), where(e))
        if wop:
            ctx.ob(k + "operator", fl(op) == wop, "%s is exported with operator %s, not %s" % (v, fl(op), wop), where(e))
        ctx.ob(k + "enforced", field(t, "show_error_message") is TRUE, "%s is exported without an error message, so it is not enforced" % v, where(e))
        sq = field(t, "sequence_of_references")
        sq = field(sq, "sqref") if sq is not None else None
        ctx.ob(k + "cell", sq is not None and bool(pieces(sq)) and set(pieces(sq)) <= pos, "%s is not placed on the cell that carries it: %s" % (v, show(sq, 6) if sq is not None else None), where(e))
        arg = [dfld(dv, v, i) for i in "01"]
        n = len(fields_of(DV, v) or [])
        if v in DATE:
            for i, f in enumerate((f1, f2)[:n]):
                # the Date inside the i-th operand, minus the epoch, in days
                d = dfld(arg[i], "Date")
                ok, ep = days(f, d)
                ctx.ob(k + "operand%d" % (i + 1), ok, "operand %d of %s is %s" % (i + 1, v, show(f, 6) if f is not None else None), where(e))
                if ok and i == 0 and v == "DateAfter":
                    if ep == (1900, 1, 1):
                        ctx.ob("epoch-1900-01-01", False, "dates are counted from 1900-01-01 where Excel's day 0 is 1899-12-30", where(e))
                    else:
                        ctx.ob("excel:epoch", ep == (1899, 12, 30), "dates are counted from %s" % (ep,), where(e))
        elif v in NUM or v == "Custom" or v == "ValueInRange":
            for i, f in enumerate((f1, f2)[:n]):
                p = pieces(f) if f is not None else []
                ctx.ob(k + "operand%d" % (i + 1), p == [arg[i]], "operand %d of %s is %s" % (i + 1, v, p), where(e))
        elif v in FORMULA:
            p = ["P" if not isinstance(x, str) and x in pos else "T" if x is arg[0] else x for x in (pieces(f1) if f1 is not None else [])]
            ctx.ob(k + "formula", tuple(p) == FORMULA[v], "the formula of %s is %s" % (v, p), where(e))
        elif v == "ValueInList":
            src = f1 is not None and any(x is arg[0] for x in deep(E, f1))
            p = pieces(f1) if f1 is not None else []
            ctx.ob(k + "operand1", src and p[:1] == ['"'] and p[-1:] == ['"'] and any(x.op == "call" and x.a[0].endswith("join") for x in deep(E, f1)),
                   "the list of %s is %s" % (v, show(f1, 6) if f1 is not None else None), where(e))
            for x in deep(E, f1) if f1 is not None else ():
                sep = [y.a[1] for y in x.a[1:] if isinstance(y, T) and y.op == "c" and isinstance(y.a[1], str)] if x.op == "call" and x.a[0].endswith("join") else []
                if sep:
                    ctx.ob(k + "separator", sep[0].strip() == ",", "the values of a list are separated by %r, Excel takes commas" % sep[0], where(e))
        prompt = field(t, "prompt")
        ps = pieces(prompt) if prompt is not None else []
        said = " ".join(x for x in ps if isinstance(x, str)).lower()
        if said.strip():
            w, want = ({y for y in WORDS if re.search(r"\b%s" % y, x)} for x in (said, re.sub(r"(?<!^)([A-Z])", r" \1", v).lower()))
            if v in ("Custom", "ValueInList", "ValueInRange"):
                want = w
            ctx.ob(k + "message", w == want, "the message of %s says %r" % (v, said), where(e))
            ms = [arg.index(y) for x in ps if not isinstance(x, str) for y in subterms(x) if y in arg]
            ms = [y for i, y in enumerate(ms) if y not in ms[:i]]
            ctx.ob(k + "message operands", ms == sorted(ms), "the message of %s gives its operands in another order" % v, where(e))
        if n < 2:
            ctx.ob(k + "no operand2", f2 is None, "%s has a second operand" % v, where(e))


def days(f, d):
    """is f num_days(d - epoch)? -> (bool, epoch)"""
    if f is None:
        return False, None
    ps = pieces(f)
    if len(ps) != 1 or isinstance(ps[0], str):
        return False, None
    t = ps[0]
    if not (t.op == "call" and t.a[0].endswith("num_days")):
        return False, None
    s = t.a[1]
    if s.op == "call" and s.a[0].endswith(("signed_duration_since", "::sub")) and s.a[1] is d or s.op == "bin" and s.a[0] == "Sub" and s.a[1] is d:
        ep = s.a[2]
        for x in subterms(ep):
            if x.op == "call" and "from_ymd" in x.a[0]:
                return True, tuple(y.a[1] for y in x.a[1:] if isinstance(y, T) and y.op == "c")
        return True, None
    return False, None


def google(ctx, DV, DT, vs):
    b = c03.build(ctx)
    if b is None:
        return
    E, ret, cds, cell = b
    c03.masked(ctx, E, "dataValidation")
    e = cds[0]
    c = c03.agg_field(e, "data_validation")
    if not ctx.ob("google:present", c is not None and c.op == "gate", "no data_validation on the CellData", where(e)):
        return
    own = fld(cell, "data_validation")
    dv = dfld(own, "Some")
    none = under(c, (own, OPTION, "None"))
    ctx.ob("google:none", one(none) is not None and (one(none) is mk("adt", OPTION, "None") or c03.isdef(one(none))), "a cell without validation gets one", where(e))
    c = under(c, (own, OPTION, "Some"))
    for v in vs:
        k = "google:%s:" % v
        t = one(hoist(under(c, (dv, DV, v))))
        if not ctx.ob(k + "defined", t is not None and t.op == "adt" and t.a[1] == "Some", "%s has no single rule" % v, where(e)):
            continue
        def f(x, n):
            if x is None or x.op != "adt":
                return None
            if x.a[0] == OPTION:
                x = x.a[2] if len(x.a) > 2 else None
                if x is None or x.op != "adt":
                    return None
            fs = fields_of(x.a[0], x.a[1])
            y = x.a[2 + fs.index(n)] if fs and n in fs else None
            return y
        cond = f(t, "condition")
        ty = f(cond, "type_")
        ty = ty.a[2].a[1] if ty is not None and ty.op == "adt" and len(ty.a) > 2 and ty.a[2].op == "c" else None
        want = DATE[v][1] if v in DATE else NUM[v][1] if v in NUM else GTEXT[v]
        ctx.ob(k + "type", ty == want, "%s is sent as %s, not %s" % (v, ty, want), where(e))
        vals = f(cond, "values")
        vals = vals.a[2] if vals is not None and vals.op == "adt" and len(vals.a) > 2 else None
        n = len(fields_of(DV, v) or [])
        if v == "ValueInList":
            el = E.elem(vals) if vals is not None else None
            ue = f(el, "user_entered_value")
            ok = ue is not None and any(x is dfld(dv, v, "0") for x in deep(E, ue))
            ctx.ob(k + "operands", ok, "the list of %s is %s" % (v, show(vals, 5) if vals is not None else None), where(e))
            continue
        els = list(vals.a) if vals is not None and vals.op == "arr" else None
        if els is None and (vals is None or vals.op in ("call", "default", "k") and ("default" in show(vals, 1) or vals.a[0].endswith("Vec::new"))):
            els = []
        ok = els is not None and len(els) == n
        if ok:
            for i, x in enumerate(els):
                ue = f(x, "user_entered_value")
                p = pieces(ue.a[2]) if ue is not None and ue.op == "adt" and len(ue.a) > 2 else None
                ok = ok and p == [dfld(dv, v, str(i))]
        ctx.ob(k + "operands", ok, "the operands of %s are %s" % (v, show(vals, 6) if vals is not None else None), where(e))
