"""C20: formulas and definitions parse into the tree their text means."""
from sa.q import *
from sa.terms import *

TITLE = "Formulas parse with spreadsheet operator precedence, and nothing is dropped"
RULE = ("The expression parser is evaluated with the lexer and its own recursive calls as unknowns, once for each binding power it can be called "
        "with: for every ordered pair of operators the second one must join the right operand exactly when it binds tighter; every tree node is "
        "built from the operands in source order, parentheses, signs, percentages, empty and nested arguments included; every token that cannot "
        "start or continue an expression is an error; and every sub-expression's error stops the parse.")

TOK = "csvpp::parser::ast_lexer::token::Token"
NODE = "csvpp::ast::node::Node"
SIGN = "csvpp::ast::node::NumberSign"
LEVELS = [["^"], ["*", "/"], ["+", "-"], ["&"], ["=", "<", ">", "<=", ">=", "<>"]]
INFIX = {o: -i for i, l in enumerate(LEVELS) for o in l}
TERMINALS = ["Boolean", "DoubleQuotedString", "Float", "Integer", "Reference"]
GONE = (DEAD, CONT, NOTSET)
ENDS = ["Comma", "CloseParen", "Eof"]


def last(p):
    import re
    while True:
        q = re.sub(r"<[^<>]*>", "", p)
        if q == p:
            break
        p = q
    return [x for x in p.split("::") if x][-1]


def opaque(g):
    return g.key.startswith("csvpp::parser::ast_lexer") or g.name == "into_parse_error" or (g.name == "try_from" and "Ast" in (g.self_ty or ""))


def world(p):
    n = last(p)
    return "w" if n in ("next", "expr_bp") else "r" if n == "peek" else None


class Run:
    def __init__(self, ctx, f, bp):
        self.f = f
        self.E = ctx.engine(opaque=opaque, world=world)
        self.r = ctx.run(self.E, f, args=[sym("self", f.locals[1]), mk("c", f.locals[2], bp)])
        self.ev = {}
        for e in self.E.events:
            self.ev.setdefault(last(e.path), []).append(e)

    def get(self, n):
        return self.ev.get(n, [])


def tok(t, *vs):
    return is_variant(fld(t, "token"), TOK, *vs)


def pin(dd, t, token, text=None):
    """dd when the token read as t is `token` (with this text)."""
    dd = restrict(dd, atom_disc(fld(t, "token"), TOK), token)
    if text is not None:
        dd = pin_text(dd, t, text)
    return dd


def pin_text(dd, t, text):
    s = fld(t, "str_match")
    for at in list(atoms_of(dd)):
        if at.op == "a.val" and at.a[0] is s:
            dd = restrict(dd, at, text if text in labels_of(dd, at) else OTHER)
    return dd


def okv(e):
    return dfld(e.ret, "Ok")


def inner(E, t):
    """The node inside an Ast."""
    return t.a[2] if t.op == "adt" and t.a[0].endswith("::Ast") and len(t.a) == 3 else t


def node(l, kind):
    return l.op == "adt" and l.a[0] == NODE and l.a[1] == kind


def is_err(l):
    return l.op == "adt" and l.a[0] == RESULT and l.a[1] == "Err"


def check(ctx):
    f = ctx.fn("expr_bp")
    R = Run(ctx, f, 0)
    infix = R.get("InfixFunctionCall")
    if not ctx.ob("infix built", len(infix) == 1, "%d places build an infix call" % len(infix)):
        return
    lhs = infix[0].args[0]
    opt = infix[0].args[1]
    ok = opt.op == "fld" and opt.a[1] == "str_match" and opt.a[0].op == "call" and last(opt.a[0].a[0]) == "peek"
    ok = ctx.ob("operator text", ok, "the operator of an infix call is %s" % show(opt, 3)[:80], where(infix[0])) and \
        ctx.ob("loop", lhs.op == "rec" and lhs.id in R.E.rec_info, "the left operand is not what was parsed so far: %s" % show(lhs, 3)[:80], where(infix[0]))
    if not ok:
        return
    powers(ctx, f, R)
    first(ctx, R, lhs)
    rest(ctx, R, lhs, opt.a[0])
    consumption(ctx, R, lhs, opt.a[0])
    callers(ctx, f)
    whole(ctx)


def peeked(R):
    i = R.get("InfixFunctionCall")
    return i[0].args[1].a[0] if len(i) == 1 else None


def powers(ctx, f, R):
    """How each pair of operators groups, by evaluating the parser at the binding power each operator recurses with."""
    def at(run, op):
        """guard of building an infix call when the next operator is op"""
        P = peeked(run)
        if P is None:
            return None
        g = pin(only_true(run.get("InfixFunctionCall")[0].guard), P, "Operator", op)
        return g

    def rbp(run, op):
        P = peeked(run)
        rec = [a for a in run.get("InfixFunctionCall")[0].args[2:3]]
        t = rec[0]
        c = t.a[0] if t.op == "dfld" else t
        if c.op != "call" or last(c.a[0]) != "expr_bp":
            return None
        p = pin_text(c.a[2], P, op)
        return p.a[1] if p.op == "c" else None

    runs = {0: R}
    power = {}
    for op in INFIX:
        g = at(R, op)
        ctx.ob("operator " + op, g is not None and satisfiable(g), "the operator %s is not accepted inside parentheses, arguments or at the start" % op)
        p = rbp(R, op)
        if not ctx.ob("power of " + op, isinstance(p, int), "the right operand of %s is not parsed with a fixed binding power" % op):
            continue
        power[op] = p
    pre = prefix_powers(ctx, R)
    for p in set(power.values()) | set(pre.values()):
        if p not in runs:
            runs[p] = Run(ctx, f, p)

    for p, run in runs.items():
        T = first_token(run)
        for e in run.get("expr_bp"):
            if len(e.loops) >= 2 or (T is not None and not e.loops and satisfiable(pin(only_true(e.guard), T, "OpenParen"))):
                ctx.ob("inner expressions restart", e.args[1].op == "c" and e.args[1].a[1] == 0, "the operators inside parentheses or an argument depend on those outside", where(e))
        if p == 0 or peeked(run) is None:
            continue
        for op in power:
            if satisfiable(at(run, op)):
                ctx.ob("power is fixed: " + op, rbp(run, op) == power[op], "the binding power of %s depends on what is before it" % op)
        q = prefix_powers(ctx, run)
        ctx.ob("prefix power is fixed", q == pre, "the binding power of a sign depends on what is before it")

    def takes(p, op):
        if peeked(runs[p]) is None:
            return False
        g = at(runs[p], op)
        return g is not None and satisfiable(g)

    n = 0
    assoc = {}
    for a in power:
        for b in INFIX:
            n += 1
            t = takes(power[a], b)
            if INFIX[b] > INFIX[a]:
                ctx.ob("%s before %s" % (b, a), t, "x %s y %s z is grouped as (x %s y) %s z although %s binds tighter" % (a, b, a, b, b))
            elif INFIX[b] < INFIX[a]:
                ctx.ob("%s before %s" % (a, b), not t, "x %s y %s z is grouped as x %s (y %s z) although %s binds tighter" % (a, b, a, b, a))
            else:
                assoc.setdefault(INFIX[a], set()).add(t)
    ctx.floor("operator pairs", n, 100)
    ctx.ob("associativity", all(v == {False} for v in assoc.values()) or not all(v == {True} for v in assoc.values()),
           "operators of the same level group from the right: 1 - 2 + 3 is compiled as 1 - (2 + 3)")
    mixed = [l for l, v in assoc.items() if v != {True} and v != {False}]
    ctx.ob("associativity: uniform", not mixed and len({tuple(v) for v in assoc.values()}) <= 1, "operators of the same level group in different ways")
    for s, p in pre.items():
        for b in INFIX:
            ctx.ob("sign %s before %s" % (s, b), not takes(p, b), "%sx %s y applies the sign to the whole" % (s, b))
    # postfix operators bind to the operand right before them
    for p, run in runs.items():
        P = peeked_any(run)
        who = "/".join([o for o in power if power[o] == p] + [s + "x" for s in pre if pre[s] == p]) or "start"
        for what, kind, token, text in (("call", "FunctionCall", "OpenParen", "("), ("percent", "Integer", "Operator", "%")):
            es = post(run, kind)
            g = FALSE
            for e in es:
                g = b_or(g, pin(only_true(e.guard), P, token, text) if P is not None else FALSE)
            if what == "percent" and p in pre.values():
                continue    # -5% is the same number either way
            ctx.ob("%s after %s" % (what, who), satisfiable(g), "%s is not applied to the operand right before it" % text)


def peeked_any(run):
    p = peeked(run)
    if p is not None:
        return p
    ps = [e.ret for e in run.get("peek")]
    # the loop's own peek is the one whose token can be an operator
    for t in ps:
        for e in run.get("FunctionCall"):
            if any(a.op == "a.disc" and a.a[0] is fld(t, "token") and "Operator" in labels_of(e.guard, a) for a in atoms_of(e.guard)):
                return t
    return ps[0] if ps else None


def post(run, kind):
    """Events building a node of this kind from what was parsed so far (percentages) or a call."""
    if kind == "FunctionCall":
        return run.get(kind)
    return [e for e in run.get("Integer") if e.args and e.args[0] is TRUE]


def prefix_powers(ctx, R):
    T0 = first_token(R)
    out = {}
    es = [e for e in R.get("expr_bp") if T0 is not None and satisfiable(pin(only_true(e.guard), T0, "Operator"))]
    es = [e for e in es if not any(a.op == "a.disc" and a.a[0].op == "fld" and a.a[0].a[1] == "token" and a.a[0].a[0].op == "call" and last(a.a[0].a[0].a[0]) == "peek"
                                   for a in atoms_of(e.guard))]
    if ctx.ob("prefix operand", len(es) == 1, "%d operands are parsed after a prefix operator" % len(es)):
        for s in "+-":
            p = pin_text(es[0].args[1], T0, s)
            if ctx.ob("prefix power " + s, p.op == "c", "the operand of the sign %s has no fixed binding power" % s):
                out[s] = p.a[1]
            ctx.ob("prefix " + s, satisfiable(pin(only_true(es[0].guard), T0, "Operator", s)), "the sign %s is not accepted" % s)
        for o in list(INFIX) + ["%"]:
            if o not in "+-":
                ctx.ob("no prefix " + o, not satisfiable(pin(only_true(es[0].guard), T0, "Operator", o)), "%s is accepted in front of an operand" % o)
    return out


def first_token(R):
    ns = [e for e in R.get("next") if only_true(e.guard) is TRUE]
    return ns[0].ret if len(ns) == 1 else None


def first(ctx, R, lhs):
    """What an operand is, per first token."""
    E = R.E
    T0 = first_token(R)
    if not ctx.ob("first token", T0 is not None, "the first token of an expression is not read exactly once"):
        return
    P = peeked(R)
    entry = [e for e in R.get("peek") if e.ret is P]
    init = ite(only_true(entry[0].guard), E.rec_info[lhs.id][0], NOTSET)
    for t in variants_of(TOK):
        d = pin(init, T0, t)
        good = [l for l in leaves(d) if l not in GONE]
        if t == "OpenParen":
            es = [e for e in R.get("expr_bp") if satisfiable(pin(only_true(e.guard), T0, "OpenParen")) and not E_in_loop(e)]
            if ctx.ob("paren operand", len(es) == 1, "%d expressions are parsed after an opening parenthesis" % len(es)):
                e = es[0]
                ctx.ob("paren restarts", e.args[1].op == "c" and e.args[1].a[1] == 0, "inside parentheses the outer operator's binding power still applies", where(e))
                ctx.ob("paren value", good == [okv(e)], "the value of (x) is %s" % [show(l, 3)[:60] for l in good])
                ctx.ob("paren errors", must_stop(E, R.r, e), "an error inside parentheses is ignored", where(e))
                nx = [x for x in R.get("next") if x.seq > e.seq and satisfiable(pin(only_true(x.guard), T0, "OpenParen")) and not E_in_loop(x)] if hasattr(e, "seq") else \
                    [x for x in R.get("next") if x.ret is not T0 and not E_in_loop(x) and satisfiable(pin(only_true(x.guard), T0, "OpenParen"))]
                if ctx.ob("paren close", len(nx) == 1, "%d tokens are read to close a parenthesis" % len(nx)):
                    for v in variants_of(TOK):
                        dv = pin(d, nx[0].ret, v)
                        lives = any(l not in GONE for l in leaves(dv))
                        ctx.ob("paren close: " + v, lives == (v == "CloseParen"), "( x followed by %s is %s" % (v, "accepted" if lives else "an error"))
        elif t in TERMINALS:
            cs = [e for e in R.get("try_from") if satisfiable(pin(only_true(e.guard), T0, t))]
            if ctx.ob("terminal " + t, len(cs) == 1 and cs[0].args[0] is T0, "%s is not converted from its token" % t):
                ctx.ob("terminal value " + t, good == [okv(cs[0])], "the value of %s is %s" % (t, [show(l, 3)[:60] for l in good]))
                ctx.ob("terminal errors " + t, must_stop(E, R.r, cs[0]), "an invalid %s is ignored" % t, where(cs[0]))
        elif t == "Operator":
            for s in "+-":
                sign_table(ctx, R, pin_text(d, T0, s), s)
            es = [e for e in R.get("expr_bp") if satisfiable(pin(only_true(e.guard), T0, "Operator")) and not E_in_loop(e)]
            for e in es:
                ctx.ob("prefix errors", must_stop(E, R.r, e), "an error in the operand of a sign is ignored", where(e))
        else:
            ctx.ob("no operand: " + t, not good, "an expression can start with %s" % t)
            rr = pin(R.r, T0, t)
            ctx.ob("no operand: error " + t, all(is_err(l) or l in GONE for l in leaves(rr)), "%s at the start of an expression is not an error" % t)


def E_in_loop(e):
    return any(a.op == "a.disc" and a.a[0].op == "fld" and a.a[0].a[1] == "token" and a.a[0].a[0].op == "call" and last(a.a[0].a[0].a[0]) == "peek" for a in atoms_of(e.guard)) or bool(e.loops)


def sign_table(ctx, R, d, s):
    seen = set()
    reached = only_true([e for e in R.get("peek") if e.ret is peeked(R)][0].guard)
    for p, l in paths(d):
        if l in GONE:
            continue
        l = inner(R.E, l)
        if not ctx.ob("sign %s: number" % s, l.op == "adt" and l.a[0] == NODE and l.a[1] in ("Integer", "Float"), "%sx becomes %s" % (s, show(l, 3)[:60])):
            continue
        kind = l.a[1]
        seen.add(kind)
        fs = {n: R.E.field(l, n) for n in ("percentage", "sign", "value")}
        src = None
        for n in ("percentage", "value"):
            v = fs[n]
            okk = v.op == "dfld" and v.a[1] == kind and v.a[2] == n
            ctx.ob("sign %s: %s of %s" % (s, n, kind), okk, "the %s of a signed %s is %s" % (n, kind, show(v, 4)[:80]))
            if okk:
                src = v.a[0]
        if src is None:
            continue
        old = dfld(src, kind, "sign")
        T0 = first_token(R)
        sg = hoist(pin(ite(reached, hoist(fs["sign"]), NOTSET), T0, "Operator", s))
        for oldv, want in ((None, s), ("Positive", s), ("Negative", "+" if s == "-" else "-")):
            x = restrict(sg, atom_disc(old, OPTION), "None" if oldv is None else "Some")
            if oldv is not None:
                x = restrict(x, atom_disc(dfld(old, "Some"), SIGN), oldv)
            x = hoist(x)
            got = {l2 for l2 in leaves(x) if l2 not in GONE}
            w = "Positive" if want == "+" else "Negative"
            good = len(got) == 1 and all(g.op == "adt" and g.a[1] == "Some" and signv(g.a[2], old, oldv) == w for g in got)
            ctx.ob("sign %s of %s %s" % (s, oldv or "unsigned", kind), good, "%s applied to a %s number gives %s" % (s, oldv or "plain", [show(g, 4)[:60] for g in got]))
    ctx.ob("sign %s: kinds" % s, seen == {"Integer", "Float"}, "the sign %s is accepted in front of %s only" % (s, sorted(seen)))


def signv(t, old, oldv):
    if t is dfld(old, "Some"):
        return oldv
    return t.a[1] if t.op == "adt" and t.a[0] == SIGN else None


def rest(ctx, R, lhs, P):
    """What can follow an operand."""
    E = R.E
    e = R.get("InfixFunctionCall")[0]
    step = iterated(E, e, E.rec_info[lhs.id][1])
    right = e.args[2]
    okr = right.op == "dfld" and right.a[1] == "Ok" and right.a[0].op == "call" and last(right.a[0].a[0]) == "expr_bp"
    ctx.ob("right operand", okr, "the right operand of an infix call is %s" % show(right, 3)[:80], where(e))
    if okr:
        call = right.a[0]
        rec = [x for x in R.get("expr_bp") if x.ret is call]
        # the operator is consumed before its right operand is parsed
        w = call.a[-1]
        ctx.ob("operator consumed", w.op == "after" and w.a[0].op == "call" and last(w.a[0].a[0]) == "next", "the operator is not consumed before its right operand", where(e))
        for x in rec:
            ctx.ob("right operand errors", must_stop(E, R.r, x), "an error in a right operand is ignored", where(x))
    single = fld(sym("self", R.f.locals[1]), "single_expr")
    lives = lambda dd: [inner(E, l) for l in leaves(dd) if l not in GONE]
    for t in variants_of(TOK):
        d = pin(step, P, t)
        rr = pin(R.r, P, t)
        oks = [l for l in leaves(rr) if l.op == "adt" and l.a[1] == "Ok"]
        good = lives(d)
        if t in ("Operator", "OpenParen"):
            continue
        ctx.ob("no continuation: " + t, not good, "%s after an operand continues the expression as %s" % (t, [show(l, 3)[:60] for l in good]))
        if t in ENDS:
            ctx.ob("end: " + t, bool(oks), "an expression does not end at %s" % t)
        elif t in ("Reference", "FunctionDefinition"):
            for b in (True, False):
                x = restrict(rr, mk("a.val", single), b)
                has = any(l.op == "adt" and l.a[1] == "Ok" for l in leaves(x))
                ctx.ob("%s ends a definition only: %s" % (t, b), has == b, "%s after an operand %s in %s" % (
                    t, "ends the expression" if has else "is an error", "the code section" if b else "a cell"))
        else:
            ctx.ob("end: error at " + t, not oks, "%s after an operand silently ends the expression" % t)
    for l in leaves(R.r):
        if l.op == "adt" and l.a[1] == "Ok":
            ctx.ob("result", l.a[2] is lhs, "the parsed expression is %s" % show(l.a[2], 3)[:80])
    # operators
    for o in INFIX:
        d = pin(step, P, "Operator", o)
        good = lives(d)
        ctx.ob("infix " + o, bool(good) and all(node(l, "InfixFunctionCall") and E.field(l, "left") is lhs and E.field(l, "right") is right and
               E.field(l, "operator") is fld(P, "str_match") for l in good), "x %s y becomes %s" % (o, [show(l, 3)[:80] for l in good]))
    d = pin(step, P, "Operator", "%")
    for k in ("Integer", "Float"):
        dk = restrict(d, atom_disc(lhs, NODE), k)
        dk = restrict(dk, atom_disc(fld(lhs, "0"), NODE), k)
        good = lives(dk)
        ctx.ob("percent of " + k, bool(good) and all(node(l, k) and E.field(l, "percentage") is TRUE and E.field(l, "sign") is dfld(inner0(E.field(l, "value")), k, "sign") and
               of_lhs(E.field(l, "value"), lhs, k, "value") for l in good), "x%% becomes %s" % [show(l, 4)[:120] for l in good])
    ctx.ob("percent: numbers only", all(l.op == "adt" and l.a[1] in ("Integer", "Float") for l in lives(d)), "%% is accepted after something that is no number")
    # calls
    d = pin(step, P, "OpenParen", "(")
    good = lives(d)
    if ctx.ob("call", bool(good) and all(node(l, "FunctionCall") for l in good), "f( becomes %s" % [show(l, 3)[:60] for l in good]):
        for l in good:
            n = E.field(l, "name")
            ctx.ob("call: name", of_lhs(n, lhs, "Reference", "0"), "the name of a call is %s" % show(n, 4)[:80])
            arguments(ctx, R, E.field(l, "args"))


def iterated(E, e, step, n=-1):
    """step, where the loop around e runs another iteration."""
    lc = E.latch.get(e.loops[n])
    return ite(only_true(lc), step, NOTSET) if lc is not None else step


def inner0(t):
    return t.a[0] if t.op == "dfld" else t


def of_lhs(t, lhs, k, n):
    if not (t.op == "dfld" and t.a[1] == k and t.a[2] == n):
        return False
    b = t.a[0]
    while b is not lhs and b.op in ("fld", "gate"):
        b = b.a[0]
    return b is lhs


def arguments(ctx, R, args):
    E = R.E
    pushes = [e for e in R.get("push")]
    rec = None
    for x in deep(E, args):
        if x.op == "rec" and x.id in E.rec_info and any(e.args[0] is x for e in pushes):
            rec = x
            break
    if not ctx.ob("arguments: list", rec is not None, "the arguments are not collected in a list: %s" % show(args, 3)[:80]):
        return
    init, step = E.rec_info[rec.id][:2]
    ctx.ob("arguments: start", init is not None and (empty_seq(init) or init.op == "call"), "the arguments start as %s" % show(init, 3)[:60])
    # the token looked at for each argument
    ps = [t for t in (x.a[0] for a in atoms_of(step) if a.op == "a.disc" for x in [a.a[0]] if x.op == "fld" and x.a[1] == "token") if last(t.a[0]) == "peek"
          and any(t is l for l in deep(E, step))]
    ps = [t for t in dict.fromkeys(ps) if any(e.ret is t and e.loops and len(e.loops) >= 2 for e in R.get("peek"))]
    if not ctx.ob("arguments: token", len(ps) == 1, "%d tokens decide on an argument" % len(ps)):
        return
    Q = ps[0]
    subs = [e for e in R.get("expr_bp") if len(e.loops) >= 2]
    if not ctx.ob("arguments: expression", len(subs) == 1, "%d expressions are parsed per argument" % len(subs)):
        return
    ctx.ob("arguments restart", subs[0].args[1].op == "c" and subs[0].args[1].a[1] == 0, "an argument is parsed with the outer binding power", where(subs[0]))
    ctx.ob("arguments: errors", must_stop(E, R.r, subs[0]), "an error in an argument is ignored", where(subs[0]))

    def added(dd):
        """What is added to the list, per leaf (as a list of terms), and the flag."""
        out = set()
        for p, l in paths(dd):
            if l in GONE:
                continue
            xs = []
            while l.op == "upd" and l.a[0] == "push":
                xs.append(inner(E, l.a[3]))
                l = l.a[2]
            out.add((tuple(reversed(xs)), l is rec, p_flag(p)))
        return out

    step = iterated(E, subs[0], step)
    # state that records whether an argument is still expected after a comma
    flags = [a for a in atoms_of(step) if a.op == "a.val" and a.a[0].op == "rec" and a.a[0].id in E.rec_info]
    def p_flag(p):
        return tuple(lab for a, lab in p if a in flags)
    empty = lambda x: node(x, "Reference") and x.a[2].op == "c" and x.a[2].a[1] == ""
    any_expr = pin(step, Q, "Integer")
    got = added(any_expr)
    ctx.ob("arguments: value", bool(got) and all(ok and len(xs) == 1 and xs[0] is okv(subs[0]) for xs, ok, _ in got), "an argument is kept as %s" % [[show(x, 3)[:50] for x in xs] for xs, _, _ in got])
    comma = pin(step, Q, "Comma")
    ctx.ob("arguments: empty", all(ok and all(empty(x) for x in xs) and len(xs) <= 1 for xs, ok, _ in added(comma)), "a comma adds %s" % [[show(x, 3)[:50] for x in xs] for xs, _, _ in added(comma)])
    if ctx.ob("arguments: flag", len(flags) == 1, "%d flags track whether an argument is missing" % len(flags)):
        fl = flags[0].a[0]
        for lab in (True, False):
            x = restrict(comma, flags[0], lab)
            ls = [xs for xs, _, _ in added(x)]
            if lab:
                ctx.ob("arguments: two commas", ls and all(len(xs) == 1 for xs in ls), "f(x,,y) loses its empty argument")
            else:
                ctx.ob("arguments: one comma", any(len(xs) == 0 for xs in ls), "f(x,y) gains an argument")
                # exactly before the first argument the comma means an empty one
                for n in (0, 1, 2, 3):
                    ls = [len(list(put_in(l))) for l in leaves(subst(x, {mk("call", "len", rec): c_int(n)})) if l not in GONE]
                    ctx.ob("arguments: first comma", ls and set(ls) == {int(n == 0)}, "f(,x) loses its empty argument" if n == 0 else "a comma behind argument %d adds %s" % (n, ls))
        finit, fstep = E.rec_info[fl.id][:2]
        fstep = iterated(E, subs[0], fstep)
        ctx.ob("arguments: flag start", finit is FALSE, "before the first argument one is already expected")
        for t, want in (("Comma", TRUE), ("Integer", FALSE)):
            ls = {l for l in leaves(pin(fstep, Q, t)) if l not in GONE}
            ctx.ob("arguments: flag after " + t, ls == {want}, "after %s an argument is %sexpected" % (t, "not " if want is TRUE else ""))
    # the list ends at the closing parenthesis only
    close = pin(args, Q, "CloseParen")
    for p, l in paths(close):
        if l in GONE:
            continue
        xs = []
        while l.op == "upd" and l.a[0] == "push":
            xs.append(inner(E, l.a[3]))
            l = l.a[2]
        want = [lb for a, lb in p if a in flags]
        ctx.ob("arguments: last empty", not want or len(xs) == int(bool(want[0])), "f(x,) loses its empty argument" if want and want[0] else "f(x) gains an argument")
        ctx.ob("arguments: end", l is rec and len(xs) <= 1 and all(empty(x) for x in xs), "at the closing parenthesis the arguments become %s" % show(l, 3)[:60])
    for t in variants_of(TOK):
        if t != "CloseParen":
            ctx.ob("arguments: not at " + t, all(l in GONE for l in leaves(pin(args, Q, t))), "an argument list ends at %s" % t)


def put_in(l):
    while l.op == "upd" and l.a[0] == "push":
        yield l
        l = l.a[2]


def chain(w):
    """What was consumed since which state."""
    out = []
    while w.op == "after" and w.a[0].op == "call":
        out.insert(0, last(w.a[0].a[0]))
        w = w.a[0].a[-1]
    return tuple(out), w


def chains(dd):
    return {chain(l) for l in leaves(dd) if l not in GONE}


def consumption(ctx, R, lhs, P):
    """Each token is consumed exactly once."""
    E = R.E
    T0 = first_token(R)
    W = P.a[-1]
    if not ctx.ob("tokens: state", W.op == "rec" and W.id in E.rec_info, "the token after an operand is always the same one"):
        return
    W0 = T0.a[-1]
    entry = [e for e in R.get("peek") if e.ret is P][0]
    init = ite(only_true(entry.guard), E.rec_info[W.id][0], NOTSET)
    want = {"OpenParen": ("next", "expr_bp", "next"), "Operator": ("next", "expr_bp")}
    for t in TERMINALS + ["OpenParen", "Operator"]:
        d = pin(init, T0, t)
        ctx.ob("tokens of an operand: " + t, chains(d) == {(want.get(t, ("next",)), W0)}, "an operand starting with %s consumes %s" % (t, sorted(x[0] for x in chains(d))))
    e = R.get("InfixFunctionCall")[0]
    step = iterated(E, e, E.rec_info[W.id][1])
    for o in list(INFIX):
        d = pin(step, P, "Operator", o)
        ctx.ob("tokens of infix " + o, chains(d) == {(("next", "expr_bp"), W)}, "x %s y consumes %s after x" % (o, sorted(x[0] for x in chains(d))))
    d = pin(step, P, "Operator", "%")
    ctx.ob("tokens of %", chains(d) == {(("next",), W)}, "x%% consumes %s after x" % sorted(x[0] for x in chains(d)))
    d = pin(step, P, "OpenParen", "(")
    cs = chains(d)
    if not ctx.ob("tokens of a call", len(cs) == 1 and all(n == ("next",) and b.op == "rec" and b.id in E.rec_info for n, b in cs), "f(...) consumes %s at its end" % sorted(x[0] for x in cs)):
        return
    W2 = list(cs)[0][1]
    init, step = E.rec_info[W2.id][:2]
    ctx.ob("tokens of a call: (", chains(pin(init, P, "OpenParen", "(")) == {(("next",), W)}, "f( consumes %s after f" % sorted(x[0] for x in chains(pin(init, P, "OpenParen", "("))))
    subs = [e for e in R.get("expr_bp") if len(e.loops) >= 2]
    Q = [e.ret for e in R.get("peek") if len(e.loops) >= 2 and e.ret.a[-1] is W2]
    if len(subs) == 1 and ctx.ob("tokens of an argument: seen", len(set(Q)) == 1, "the arguments are not told apart by the next token"):
        step = iterated(E, subs[0], step)
        for t, w in (("Comma", ("next",)), ("Integer", ("expr_bp",)), ("Reference", ("expr_bp",)), ("OpenParen", ("expr_bp",))):
            d = pin(step, Q[0], t)
            ctx.ob("tokens of an argument: " + t, chains(d) == {(w, W2)}, "%s in an argument list consumes %s" % (t, sorted(x[0] for x in chains(d))))


def callers(ctx, f):
    """Every other caller parses a whole expression."""
    n = 0
    for g in ctx.callers(f):
        if g.key == f.key:
            continue
        n += 1
        E = ctx.engine(opaque=lambda h: h.name == "expr_bp" or opaque(h), world=world)
        ctx.run(E, g, ["a%d" % i for i in range(g.nargs)])
        for e in E.events:
            if last(e.path) == "expr_bp":
                ctx.ob("whole expression: " + g.name, e.args[1].op == "c" and e.args[1].a[1] == 0, "%s parses only operators that bind tighter than %s" % (g.name, show(e.args[1])), where(e))
    ctx.floor("callers", n, 2)


def whole(ctx):
    f = ctx.fn("parse", self_has="AstParser")
    E = ctx.engine(opaque=lambda h: h.name == "expr_bp" or opaque(h), world=world)
    r = ctx.run(E, f, ["input", "single", "field", "source"])
    new = [e for e in E.events if last(e.path) == "new" and "AstLexer" in e.path]
    ex = [e for e in E.events if last(e.path) == "expr_bp"]
    nx = [e for e in E.events if last(e.path) == "next"]
    if not ctx.ob("whole input", len(new) == 1 and len(ex) == 1 and len(nx) == 1, "a formula is lexed %d times, parsed %d times and %d tokens are read after it" % (len(new), len(ex), len(nx))):
        return
    ctx.ob("whole input: text", new[0].args[0] is sym("input", f.locals[1]), "not the whole input is lexed", where(new[0]))
    ctx.ob("lexer errors", must_stop(E, r, new[0]), "an invalid token is ignored", where(new[0]))
    ctx.ob("parser errors", must_stop(E, r, ex[0]), "an invalid expression is ignored", where(ex[0]))
    good = b_and(b_and(isv(new[0].ret, RESULT, "Ok"), isv(ex[0].ret, RESULT, "Ok")), tok(nx[0].ret, "Eof"))
    s, a, b = same_cond(okd(r), good)
    ctx.ob("whole input: to the end", s, "a formula is accepted " + (diff(a, b) if not s else ""))
    for l in leaves(r):
        if l.op == "adt" and l.a[1] == "Ok":
            ctx.ob("whole input: tree", l.a[2] is okv(ex[0]), "the formula's tree is %s" % show(l.a[2], 3)[:80])

