"""C15: evaluation of variables and user-defined functions."""
from sa.q import *
from sa.terms import *
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, drop, empty, eq_text
from checks.c17 import node_of
from checks.c13 import without, fails

TITLE = "Names defined in scope are expanded everywhere in a formula until none is left"
RULE = ("For every variant of the expression tree that can occur in an expression (taken from the type's declaration, with the fields that hold expressions) the three traversals - finding the "
        "names in scope, replacing variables, calling a function - are evaluated on it and must treat every sub-expression and nothing else; the loop of the evaluation is compared with the specified "
        "one: what it stops on, what one round does, and that errors end it.")
AST = "csvpp::ast::Ast"
SELF = ("replace_variables", "call_function", "extract_dfs", "into_ast")


def rec_calls(g):
    return g.name in SELF and g.key.startswith("csvpp")


def node_adt(ctx):
    for k in ctx.F.adts:
        if k.startswith("csvpp") and k.endswith("::Node") and len(variants_of(k)) > 5:
            return k
    raise Missing("the expression tree")


def shape(ctx, adt):
    """variant -> [(field, 'ast' | 'asts' | 'value' | '')]; a value is an expression in its variant Ast"""
    out = {}
    vals = set()
    for k, a in ctx.F.adts.items():
        if k.startswith("csvpp") and k.endswith("::VariableValue"):
            vals.add(k)
            for n, _, fs in a["variants"]:
                if any(AST in f[1] for f in fs) and (n != "Ast" or len(fs) != 1):
                    raise Missing("expressions held in the variant %s of %s" % (n, k))
    for name, _, fs in ctx.F.adts[adt]["variants"]:
        out[name] = [(f[0], "ast" if f[1] == AST else "asts" if f[1] == "alloc::vec::Vec<%s>" % AST else "value" if f[1] in vals else "") for f in fs]
        for f in fs:
            if f[1] not in vals and AST in f[1] and f[1] not in (AST, "alloc::vec::Vec<%s>" % AST):
                raise Missing("expressions held as %s in %s" % (f[1], name))
    return out


def subject(ctx, me, *ds):
    """The term the node of `me` is matched on."""
    for d in ds:
        for x in subterms(d):
            if x.op == "a.disc" and (x.a[0] is me or (x.a[0].op in ("fld", "call") and me in x.a[0].a and not (x.a[0].op == "call" and last(x.a[0].a[0]) in SELF))):
                return x.a[0]
    raise Missing("a match on the node")


def check(ctx):
    adt = node_adt(ctx)
    sh = shape(ctx, adt)
    ctx.floor("variants of the expression tree", len(sh), 8)
    inside = list(sh)
    replace(ctx, adt, sh, inside)
    call(ctx, adt, sh, inside)
    find(ctx, sh, inside)
    loop(ctx)


def kept(E, n, x, v, f, me):
    """field f of the resulting node is the original one"""
    if n is me or n is x:
        return True
    if n.op != "adt" or n.a[1] != v:
        return False
    return E.field(n, f) is dfld(x, v, f)


def unshadowed(ctx, E, t, base, args):
    """base without the names in args"""
    t = drop(t)

    def is_in(c, name):
        d = assume(c, lambda a: True if a.a[0].op == "call" and last(a.a[0].a[0]) == "contains" and a.a[0].a[1] is args and a.a[0].a[2] is name else None)
        n = assume(c, lambda a: False if a.op != "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "contains" and a.a[0].a[1] is args and a.a[0].a[2] is name else None)
        return d is FALSE and n is TRUE
    if t.op == "upd" and last(t.a[0]) == "retain" and t.a[2] is base and t.a[3].op == "clo":
        g = ctx.F.fns.get(t.a[3].a[0])
        xs = [mk("sym", "x%d" % i, g.locals[i + 2]) for i in range(g.nargs - 1)]
        return is_in(ctx.run(ctx.engine(), g, args=[t.a[3]] + xs), xs[0])
    if t.op == "coll" and (t.a[0] is base or E.isrc(t.a[0]) is base):
        names = [x.a[0].a[2] for x in subterms(t.a[2]) if x.op.startswith("a.") and x.a[0].op == "call" and last(x.a[0].a[0]) == "contains"]
        return bool(names) and is_in(t.a[2], names[0]) and any(x.op == "elem" for x in subterms(names[0]))
    if t.op == "rec" and t.id in E.rec_info:
        i, st = E.rec_info[t.id][:2]
        st = drop(st)
        return drop(i) is base and st.op == "upd" and last(st.a[0]) == "remove" and st.a[2] is t and st.a[3].op == "elem" and args in (st.a[3].a[0], E.isrc(st.a[3].a[0]))
    return False


def body(t):
    """in the body of a loop over elements: there is one"""
    return assume(t, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None)


def one(d):
    ls = [l for l in leaves(d) if l not in (DEAD, CONT)]
    return ls[0] if len(ls) == 1 else d


def val_adt(ctx):
    return next(k for k in ctx.F.adts if k.startswith("csvpp") and k.endswith("::VariableValue"))


def replace(ctx, adt, sh, inside):
    f = ctx.fn("replace_variables")
    E = ctx.engine(opaque=rec_calls)
    r = ctx.run(E, f, ["ast", "values"])
    me, vals = [sym(n, f.locals[i + 1]) for i, n in enumerate(("ast", "values"))]
    x = subject(ctx, me, r)
    def is_rep(t, of, v=None):
        t = node_of(t)
        return t.op == "call" and last(t.a[0]) == "replace_variables" and t.a[1] is of and (unshadowed(ctx, E, t.a[2], vals, dfld(x, v, "args")) if v == "Function" else t.a[2] is vals)
    for v in inside:
        d = pin_disc(r, x, v)
        if v == "Reference":
            gets = [e for e in E.events if last(e.path) == "get" and e.args[0] is vals and e.args[1] is dfld(x, v, "0")]
            if not ctx.ob("replace: a reference is looked up", len(gets) == 1, "the value of a reference is looked up %d times" % len(gets)):
                continue
            g = gets[0].ret
            y = node_of(drop(pin_disc(d, g, "Some")))
            while y.op in ("fld", "call") and (y.op == "fld" and y.a[1] == "0" or y.op == "call" and last(y.a[0]) in ("into_inner", "clone", "deref")):
                y = y.a[0] if y.op == "fld" else y.a[1]
            ctx.ob("replace: a defined reference", y is dfld(g, "Some"), "a reference with a value becomes %s" % show(y, 4)[:120])
            n = node_of(drop(pin_disc(d, g, "None")))
            ctx.ob("replace: another reference", kept(E, n, x, v, "0", me), "a reference without a value becomes %s" % show(n, 4)[:120])
            continue
        val = next((dfld(x, v, fl) for fl, kind in sh[v] if kind == "value"), None)
        if val is not None:
            for o in variants_of(val_adt(ctx)):
                if o != "Ast":
                    m = node_of(drop(pin_disc(d, val, o)))
                    ctx.ob("replace: %s of %s" % (v, o), all(kept(E, m, x, v, fl, me) for fl, _ in sh[v]), "replacing variables changes a %s with a value %s" % (v, o))
            d = pin_disc(d, val, "Ast")
        n = node_of(drop(d))
        for fl, kind in sh[v]:
            if kind == "value":
                c = E.field(n, fl) if n.op == "adt" and n.a[1] == v else n
                ctx.ob("replace: inside %s.%s" % (v, fl), c.op == "adt" and c.a[1] == "Ast" and is_rep(c.a[2], dfld(val, "Ast")), "variables are not replaced in the %s of a %s: %s" % (fl, v, show(c, 4)[:140]))
                continue
            if kind == "":
                ctx.ob("replace: %s.%s" % (v, fl), kept(E, n, x, v, fl, me), "replacing variables changes the %s of a %s: %s" % (fl, v, show(n, 3)[:120]))
                continue
            ok = n.op == "adt" and n.a[1] == v
            c = E.field(n, fl) if ok else n
            if kind == "ast":
                ok = ok and is_rep(c, dfld(x, v, fl), v)
            elif ok:
                e = each_in_order(E, drop(c), dfld(x, v, fl))
                ok = e is not None and node_of(e).op == "call" and last(node_of(e).a[0]) == "replace_variables" and node_of(e).a[1].op == "elem" and node_of(e).a[2] is vals
            ctx.ob("replace: inside %s.%s" % (v, fl), ok, "variables are not replaced in the %s of a %s: %s" % (fl, v, show(c, 4)[:140]))


def call(ctx, adt, sh, inside):
    f = ctx.fn("call_function")
    E = ctx.engine(opaque=rec_calls)
    r = ctx.run(E, f, ["ast", "name", "function"])
    me, name, fun = [sym(n, f.locals[i + 1]) for i, n in enumerate(("ast", "name", "function"))]
    x = subject(ctx, me, r)
    calls = [e for e in E.events if last(e.path) == "call_function"]

    def is_call(t, of):
        t = node_of(t)
        return t.op == "dfld" and t.a[1] == "Ok" and t.a[0].op == "call" and last(t.a[0].a[0]) == "call_function" and of(t.a[0].a[1]) and t.a[0].a[2] is name and t.a[0].a[3] is fun

    def good(d):
        """when no call inside fails"""
        def go(t):
            return assume(t, succeed)
        return one(ok_of(go(d)))

    def ok_of(d):
        ls = {l.a[2] for l in leaves(d) if l.op == "adt" and l.a[1] == "Ok"}
        return next(iter(ls)) if len(ls) == 1 else d

    def propagates(v, what, of, d):
        for e in calls:
            g = pin_disc(e.guard, x, v)
            if of(e.args[0]) and satisfiable(only_true(named(g, False) if v == "FunctionCall" else g)):
                b = pin_disc(d, e.ret, "Err")
                if not all(l in E.latch for l in e.loops):
                    b = without(d, e, fails(e))
                # only the paths on which this call is made
                b = assume(b, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None) if e.loops else b
                ls = [l for l in leaves(b) if l not in (DEAD, CONT)]
                others = [o.ret for o in calls if o is not e]
                ls = [l for l in leaves(assume(b, lambda a: "Ok" if a.op == "a.disc" and any(a.a[0] is o for o in others) else None)) if l not in (DEAD, CONT)]
                ctx.ob("call: error in %s" % what, bool(ls) and all(l.op == "adt" and l.a[1] == "Err" for l in ls), "an error in %s of a %s is ignored" % (what, v))
                for lid in e.loops:
                    ctx.ob("call: error in %s ends" % what, stops(E, r, e, lid), "the loop goes on after an error in %s" % what)

    same = [a.a[0] for a in subterms(r) if a.op in ("a.sw", "a.disc", "a.eq") and a.a[0].op == "bin" and name in a.a[0].a]

    def named(d, yes):
        return eq_name(d, name, dfld(x, "FunctionCall", "name"), yes)
    for v in inside:
        d = pin_disc(r, x, v)
        if v == "FunctionCall":
            d = named(d, False)
        val = next((dfld(x, v, fl) for fl, kind in sh[v] if kind == "value"), None)

        def value_is(t, o):
            return assume(t, lambda a: o if val is not None and a.op == "a.disc" and a.a[0] is val else None)
        if val is not None:
            for o in variants_of(val_adt(ctx)):
                if o != "Ast":
                    m = node_of(one(assume(value_is(node_of(good(value_is(d, o))), o), lambda a: v if a.op == "a.disc" and a.a[0] is x else None)))
                    ctx.ob("call: %s of %s" % (v, o), all(kept(E, m, x, v, fl, me) for fl, _ in sh[v]), "calling a function changes a %s with a value %s" % (v, o))
            d = value_is(d, "Ast")
        n = value_is(node_of(good(d)), "Ast")
        n = assume(n, lambda a: v if a.op == "a.disc" and a.a[0] is x else None)
        n = node_of(one(n))
        if v == "FunctionCall":
            n = node_of(one(named(n, False)))
            n = one(assume(n, lambda a: "None" if a.op == "a.disc" and a.a[0].op == "next" else "Ok" if a.op == "a.disc" and a.a[0].op == "call" else None))
            n = node_of(n)
        for fl, kind in sh[v]:
            if kind == "":
                ctx.ob("call: %s.%s" % (v, fl), kept(E, n, x, v, fl, me), "calling a function changes the %s of a %s: %s" % (fl, v, show(n, 3)[:140]))
                continue
            ok = n.op == "adt" and n.a[1] == v
            c = E.field(n, fl) if ok else n
            src = dfld(x, v, fl)
            if kind == "value":
                src = dfld(val, "Ast")
                ok = ok and c.op == "adt" and c.a[1] == "Ast" and is_call(c.a[2], lambda t: t is src)
                propagates(v, "the %s" % fl, lambda t: t is src, d)
            elif kind == "ast":
                ok = ok and is_call(c, lambda t: t is src)
                propagates(v, "the %s" % fl, lambda t: t is src, d)
            elif ok:
                e = each_call(E, c, src, is_call)
                ok = e
                propagates(v, "the %s" % fl, lambda t: t.op == "elem" and src in (t.a[0], E.isrc(t.a[0])), d)
            ctx.ob("call: inside %s.%s" % (v, fl), ok, "a function is not called in the %s of a %s: %s" % (fl, v, show(c, 4)[:140]))
    # the call itself
    d = named(pin_disc(r, x, "FunctionCall"), True)
    y = subject(ctx, fun, d)
    d = pin_disc(d, y, "Function")
    la, lp = mk("call", "len", dfld(x, "FunctionCall", "args")), mk("call", "len", dfld(y, "Function", "args"))

    def count(t, yes):
        def choose(a):
            z = a.a[0]
            if z.op == "bin" and {q.id for q in z.a[1:] if isinstance(q, T)} == {la.id, lp.id}:
                return {"Eq": yes, "Ne": not yes}.get(z.a[0])
        return assume(t, choose)

    ls = [l for l in leaves(hoist(count(d, False))) if l not in (DEAD, CONT)]
    ok = bool(ls) and all(l.op == "adt" and l.a[1] == "Err" for l in ls)
    ctx.ob("arguments: another number", ok, "a call with another number of arguments is no error")
    for l in ls:
        if l.op == "adt" and l.a[1] == "Err":
            ps = [p for m in [E.field(l.a[2], "message")] for p in pieces(m)]
            nums = [p[2] for p in ps if not isinstance(p, str)]
            words = " ".join(p if isinstance(p, str) else "{}" for p in ps).lower()
            i, j = words.find("expected"), words.find("received")
            want = [lp, la] if 0 <= i < j else [la, lp] if 0 <= j < i else None
            if want:
                ctx.ob("arguments: numbers in the message", nums == want, "the message about the number of arguments swaps or confuses them: %s" % [show(z, 4)[:60] for z in nums])
    d = count(d, True)
    g = node_of(good(d))
    for _ in range(3):
        g = assume(g, lambda a: "FunctionCall" if a.op == "a.disc" and a.a[0] is x else "Function" if a.op == "a.disc" and a.a[0] is y else "Ok" if a.op == "a.disc" and a.a[0].op == "call" else True if all_ok(a) else
                   "None" if a.op == "a.disc" and a.a[0].op == "next" else None)
        g = node_of(one(count(named(g, True), True)))
    ok = g.op == "call" and last(g.a[0]) == "replace_variables" and node_of(g.a[1]) is dfld(y, "Function", "body")
    if not ctx.ob("a call becomes the body", ok, "a call becomes %s" % show(g, 4)[:160]):
        return
    m = g.a[2]
    args, params = dfld(x, "FunctionCall", "args"), dfld(y, "Function", "args")
    pair = mapped(E, m)
    if ctx.ob("arguments: one value per parameter", pair is not None, "the values of the parameters are %s" % show(m, 4)[:160]):
        k, val = pair
        src = lambda t, s: t.op == "elem" and s in (t.a[0], E.isrc(t.a[0]))
        ctx.ob("arguments: by parameter", src(k, params), "values are put under %s" % show(k, 4)[:120])
        ctx.ob("arguments: the argument, with calls in it", is_call(val, lambda t: src(t, args)), "a parameter's value is %s" % show(val, 4)[:120])
    for e in calls:
        if e.loops and e.args[0].op == "elem" and args in (e.args[0].a[0], E.isrc(e.args[0].a[0])):
            ctx.ob("arguments: errors", all(stops(E, r, e, l) for l in e.loops), "an error in an argument is ignored")


def all_ok(a):
    """every one of the calls succeeded"""
    z = a.a[0] if a.op == "a.val" else a
    return z.op == "all" and any(x.op == "call" and last(x.a[0]) == "call_function" for x in subterms(z.a[2]))


def succeed(a):
    return True if all_ok(a) else "Ok" if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "call_function" else None


def stops(E, r, e, lid):
    """the loop (or what goes through the elements) ends when the call fails"""
    if lid in E.latch:
        return TRUE not in leaves(pin_disc(E.latch[lid], e.ret, "Err"))
    return not satisfiable(without(b_and(only_true(okd(r)), fails(e)), e, fails(e)))


def each_call(E, c, src, is_call):
    """[call(x) for x in src]"""
    c = drop(c)
    if c.op == "dfld" and c.a[1] == "Ok":
        c = c.a[0]
    e = each_in_order(E, c, src)
    if e is None and c.op == "rec":
        init, step = E.rec_info[c.id][:2]
        ups = [l for l in leaves(assume(step, lambda a: "Ok" if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "call_function" else None)) if l not in (DEAD, CONT)]
        if empty(init) and len(ups) == 1 and ups[0].op == "upd" and last(ups[0].a[0]) == "push" and ups[0].a[2] is c:
            e = ups[0].a[3]
    return e is not None and is_call(e, lambda t: t.op == "elem" and src in (t.a[0], E.isrc(t.a[0])))


def mapped(E, m):
    """(key, value) of a map filled once per element"""
    m = drop(m)
    if m.op == "rec" and m.id in E.rec_info:
        init, step = E.rec_info[m.id][:2]
        step = one(assume(body(step), lambda a: "Ok" if a.op == "a.disc" and a.a[0].op == "call" else None))
        step = drop(step)
        if empty(init) and step.op == "upd" and last(step.a[0]) == "insert" and step.a[2] is m:
            return drop(step.a[3]), drop(step.a[4])
    if m.op == "dfld" and m.a[1] == "Ok":
        m = m.a[0]
    if m.op == "coll" and m.a[2] is TRUE and m.a[1].op == "tup":
        return drop(m.a[1].a[-2]), drop(m.a[1].a[-1])
    return None


def eq_name(d, a_, b_, yes):
    def choose(a):
        z = a.a[0]
        if z.op == "bin" and {q.id for q in z.a[1:] if isinstance(q, T)} == {a_.id, b_.id}:
            return {"Eq": yes, "Ne": not yes}.get(z.a[0])
    return assume(d, choose)


def find(ctx, sh, inside):
    f = ctx.fn("extract_dfs")
    E = ctx.engine(opaque=rec_calls)
    names = ["found", "ast", "scope"]
    r = ctx.run(E, f, names)
    found, me, scope = [sym(n, f.locals[i + 1]) for i, n in enumerate(names)]
    guards = [e.guard for e in E.events]
    x = subject(ctx, me, *guards)

    def holds(e, v):
        d = pin_disc(e.guard, x, v)
        for fl, kind in sh[v]:
            if kind == "value":
                d = pin_disc(d, dfld(x, v, fl), "Ast")
        return [l for l in leaves(d) if l not in (DEAD, CONT)]
    for v in inside:
        for fl, kind in sh[v]:
            if kind == "":
                continue
            src = dfld(x, v, fl)
            if kind == "value":
                src, kind = dfld(src, "Ast"), "ast"
            es = [e for e in E.events if last(e.path) == "extract_dfs" and len(e.args) == 3 and
                  ((e.args[1] is src or e.args[1].op == "elem" and e.args[1].a[0].op == "arr" and src in e.args[1].a[0].a) if kind == "ast" else e.args[1].op == "elem" and src in (e.args[1].a[0], E.isrc(e.args[1].a[0])))]
            ok = any(all_true(E, e, holds(e, v)) and e.args[2] is scope for e in es)
            if ok and v == "Function":
                e = next(e for e in es if all_true(E, e, holds(e, v)))
                below(ctx, E, x, found, e, dfld(x, v, "args"))
            elif ok:
                ok = any(drop(e.args[0]) is found or e.args[0].op in ("rec", "upd") and any(t is found for t in deep(E, e.args[0])) for e in es)
            ctx.ob("find: inside %s.%s" % (v, fl), ok, "names are not looked for in the %s of every %s" % (fl, v))
    for v, table, fl in (("FunctionCall", "functions", "name"), ("Reference", "variables", "0")):
        src = dfld(x, v, fl)
        es = [e for e in E.events if last(e.path) == "insert" and e.args[1] is src]
        if not ctx.ob("find: %s noted" % v, len(es) == 1, "the name of a %s is noted %d times" % (v, len(es))):
            continue
        e = es[0]
        ctx.ob("find: %s among the %s" % (v, table), e.args[0].op in ("fld", "upd") and any(t is E.field(found, table) for t in subterms(e.args[0])), "the name of a %s is noted in %s" % (v, show(e.args[0], 4)[:100]))
        want = lambda yes: assume(pin_disc(e.guard, x, v), lambda a: (("Some" if yes else "None") if a.op == "a.disc" else yes) if a.a[0].op == "call" and last(a.a[0].a[0]) in ("contains_key", "get")
                                  and a.a[0].a[1] is E.field(scope, table) and a.a[0].a[2] is src else None)
        ctx.ob("find: %s iff defined" % v, want(True) is TRUE and want(False) is FALSE, "the name of a %s is noted under other conditions than being defined: %s" % (v, show(pin_disc(e.guard, x, v), 4)[:140]))


def below(ctx, E, x, found, e, args):
    """what is found in a function's body is found in the function, but for variables its arguments shadow"""
    for table in ("functions", "variables"):
        es = [q for q in E.events if last(q.path) in ("extend", "insert", "union", "append") and q.args[0] is E.field(found, table) and TRUE in leaves(pin_disc(q.guard, x, "Function"))]
        ok = len(es) == 1 and last(es[0].path) in ("extend", "append")
        src = es[0].args[1] if ok else None
        while src is not None and src.op == "coll" and src.a[2] is TRUE and src.a[1].op == "elem":
            src = src.a[0]
        base = [t for t in subterms(src) if t.op == "upd" and last(t.a[0]) == "extract_dfs"] if ok else []
        ok = ok and len(base) == 1
        if ok:
            q = base[0].a[2]
            ok = empty(q) or q.op == "default" or q.op == "adt" and all(empty(z) or z.op == "default" for z in q.a[2:])
            b = E.field(base[0], table)
            ok = drop(src) is b if table == "functions" else unshadowed(ctx, E, src, b, args)
        ctx.ob("find: %s of a function's body" % table, ok, "the %s found in a function's body are not the ones found in the function%s" % (table, " but for its arguments" if table == "variables" else ""))


def all_true(E, e, ls):
    if not e.loops:
        return ls == [TRUE]
    # in a loop: whenever there is an element
    d = assume(e.guard, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None)
    ok = TRUE in leaves(d)
    # and the loop goes on
    for lid in e.loops:
        lc = E.latch.get(lid)
        if lc is not None and any(l is FALSE for p, l in paths(assume(lc, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None)) if goes(e, p)):
            return False
    return ok and TRUE in ls or TRUE in ls and FALSE not in ls


def goes(e, p):
    """Is the call made on this path (of the decisions at the end of a round)?"""
    g = e.guard
    for a, lab in p:
        if lab is not None:
            g = restrict(g, a, lab)
    return TRUE in leaves(assume(g, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None))


def loop(ctx):
    fs = [g for g in ctx.fns(lambda g: g.name == "eval" and not g.closure and g.nargs == 3 and "Ast" in (g.self_ty or g.key))]
    fs = [g for g in fs if any("Ast" in l for l in g.locals[1:2])]
    if len(fs) != 1:
        raise Missing("the evaluation of an expression")
    f = fs[0]
    E = ctx.engine(opaque=rec_calls)
    names = ["ast", "scope", "position"]
    r = ctx.run(E, f, names)
    ast, scope, pos = [sym(n, f.locals[i + 1]) for i, n in enumerate(names)]
    def formula(t):
        t = node_of(t)
        while t.op == "fld" and t.a[1] == "0":
            t = t.a[0]
        return t
    # the loop which goes on depending on the names in the formula it has come to
    looks = {}
    for lid, d in E.latch.items():
        for t in subterms(d):
            if t.op == "upd" and last(t.a[0]) == "extract_dfs":
                c = formula(t.a[3])
                if c.op == "rec" and tuple(c.a[:3]) == lid:
                    looks[t] = lid
    if not ctx.ob("rounds: names looked for", len(looks) == 1, "%d loops go on depending on the names found in the formula they have come to" % len(looks)):
        return
    (R, lid), = looks.items()
    cur = formula(R.a[3])
    if not ctx.ob("rounds: state", cur.op == "rec" and cur.id in E.rec_info, "names are looked for in %s" % show(cur, 3)[:100]):
        return
    ctx.ob("rounds: in scope", R.a[4] is scope, "names are looked for in another scope")
    init, step = E.rec_info[cur.id][:2]
    ctx.ob("rounds: start", node_of(init) is ast, "evaluation starts with %s" % show(init, 3)[:100])
    # what is found starts empty every round
    got = R.a[2]
    ctx.ob("rounds: nothing found before", empty(got) or got.op == "default" or (got.op == "adt" and all(empty(a) or a.op == "default" for a in got.a[2:])), "the names found start as %s" % show(got, 3)[:100])
    # exits
    oks = [l for l in leaves(r) if l.op == "adt" and l.a[1] == "Ok"]
    ctx.ob("rounds: result", bool(oks) and all(node_of(l.a[2]) is cur for l in oks), "evaluation returns %s" % [show(l, 3)[:80] for l in oks][:2])
    fns, vs = E.field(R, "functions"), E.field(R, "variables")

    def state(nf, nv, seen):
        def choose(a):
            z = a.a[0]
            if z.op == "call" and last(z.a[0]) in ("len", "is_empty") and z.a[1] in (fns, vs):
                n = nf if z.a[1] is fns else nv
                return (n == 0) if last(z.a[0]) == "is_empty" else n
            if z.op == "bin" and any(q.op == "call" and q.a[0] == "len" and q.a[1] in (fns, vs) for q in z.a[1:] if isinstance(q, T)):
                ns = [(nf if q.a[1] is fns else nv) if q.op == "call" else q.a[1] if q.op == "c" else None for q in z.a[1:]]
                if None not in ns:
                    return {"Eq": ns[0] == ns[1], "Ne": ns[0] != ns[1], "Gt": ns[0] > ns[1], "Lt": ns[0] < ns[1], "Ge": ns[0] >= ns[1], "Le": ns[0] <= ns[1]}.get(z.a[0])
            if z.op == "call" and last(z.a[0]) == "contains" and z.a[1].op == "rec":
                return seen
            return None
        return choose
    lt = E.latch[lid]
    ok_inner = lambda a: "Ok" if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "call_function" else None
    for nf, nv in ((0, 0), (1, 0), (0, 1), (1, 1)):
        d = assume(lt, state(nf, nv, False))
        ls = {l for l in leaves(d) if l not in (DEAD, CONT)}
        if nf or nv:
            ctx.ob("rounds: %d functions, %d variables left" % (nf, nv), TRUE in ls, "evaluation stops although %d functions and %d variables are left" % (nf, nv))
            d = assume(d, ok_inner)
            ctx.ob("rounds: %d functions, %d variables left: always" % (nf, nv), not exits_ok(E, r, state(nf, nv, False)), "evaluation may stop although %d functions and %d variables are left" % (nf, nv))
        else:
            ctx.ob("rounds: nothing left", ls == {FALSE}, "evaluation goes on although nothing is left")
    d = assume(lt, state(1, 1, True))
    ctx.ob("rounds: nothing new", {l for l in leaves(d) if l not in (DEAD, CONT)} == {FALSE}, "evaluation goes on although it makes no progress: cyclic definitions are evaluated for ever")
    seens = [t for t in subterms(lt) if t.op == "call" and last(t.a[0]) == "contains" and t.a[1].op == "rec"]
    for s in seens[:1]:
        i, st = E.rec_info[s.a[1].id][:2]
        u = [l for l in leaves(st) if l not in (DEAD, CONT)]
        ctx.ob("rounds: progress", s.a[2] is R and empty(i) and all(l.op == "upd" and last(l.a[0]) in ("push", "insert") and l.a[2] is s.a[1] and l.a[3] is R for l in u), "what was seen before is not what evaluation stops on")
    # one round
    round_(ctx, E, step, cur, R, fns, vs, scope, pos, lid, r)


def exits_ok(E, r, choose):
    d = assume(r, choose)
    return any(l.op == "adt" and l.a[1] == "Ok" for l in leaves(d))


def round_(ctx, E, step, cur, R, fns, vs, scope, pos, lid, r):
    """step: cur with the variables found replaced and the functions found called (either first)"""
    did = set()
    t = step
    for _ in range(8):
        t = node_of(one_ok(t))
        if t is cur:
            break
        if t.op == "call" and last(t.a[0]) == "replace_variables":
            m = mapped_opt(E, t.a[2])
            if ctx.ob("round: values of variables", m is not None, "the values of variables are %s" % show(t.a[2], 4)[:160]):
                gets, d = m
                key, val, g = d
                ctx.ob("round: each variable found", key.op == "elem" and vs in (key.a[0], E.isrc(key.a[0])), "the variables replaced are not the ones found")
                ctx.ob("round: value looked up", g.a[1] is E.field(scope, "variables") and g.a[2] is key, "the value of a variable is looked up as %s" % show(g, 4)[:120])
                variable_value(ctx, E, val, dfld(g, "Some"), pos)
                did.add("v")
            t = t.a[1]
            continue
        if t.op == "rec" and t.id in E.rec_info:
            init, st = E.rec_info[t.id][:2]
            st = body(st)
            cs = [e for e in E.events if last(e.path) == "call_function" and node_of(e.args[0]) is t]
            if ctx.ob("round: functions called", len(cs) == 1, "functions are called at %d places" % len(cs)):
                e = cs[0]
                key, fn = e.args[1], e.args[2]
                ctx.ob("round: each function found", key.op == "elem" and fns in (key.a[0], E.isrc(key.a[0])), "the functions called are not the ones found")
                g = fn.a[0] if fn.op == "dfld" and fn.a[1] == "Some" else fn
                ctx.ob("round: definition looked up", fn.op == "dfld" and g.op == "call" and last(g.a[0]) == "get" and g.a[1] is E.field(scope, "functions") and g.a[2] is key, "a function's definition is %s" % show(fn, 4)[:120])
                s = pin_disc(pin_disc(st, g, "Some"), e.ret, "Ok")
                ctx.ob("round: result of a call", node_of(drop(s)) is dfld(e.ret, "Ok"), "after a call the formula is %s" % show(s, 4)[:120])
                ctx.ob("round: unknown function", node_of(drop(pin_disc(st, g, "None"))) is t, "an undefined function changes the formula")
                il = e.loops[-1]
                ctx.ob("round: errors stop the calls", TRUE not in leaves(pin_disc(pin_disc(body(E.latch[il]), g, "Some"), e.ret, "Err")) if il in E.latch else stops(E, r, e, il), "the error of a call is ignored")
                again = b_and(only_true(e.guard), only_true(E.latch[lid]))
                ctx.ob("round: errors stop evaluation", TRUE not in leaves(pin_disc(pin_disc(again, g, "Some"), e.ret, "Err")) or not satisfiable(without(b_and(again, fails(e)), e, fails(e))), "evaluation goes on after an error")
                def nx(a):
                    if a.op == "a.disc" and a.a[0].op == "next":
                        q = a.a[0].a[0]
                        return "Some" if q.op == "rec" and tuple(q.a[:3]) == il else "None"
                bad = leaves(assume(pin_disc(pin_disc(r, g, "Some"), e.ret, "Err"), nx))
                errs = [l for l in bad if l.op == "adt" and l.a[1] == "Err"]
                ctx.ob("round: errors are returned", bool(errs), "the error of a call is not returned")
                did.add("f")
            t = init
            continue
        break
    ctx.ob("round: from the formula", t is cur, "a round turns the formula into %s" % show(t, 4)[:160])
    ctx.ob("round: variables and functions", did == {"v", "f"}, "a round does not handle %s" % sorted({"v", "f"} - did))


def one_ok(t):
    ls = [l for l in leaves(t) if l not in (DEAD, CONT)]
    ls = list(dict.fromkeys(l.a[0] if l.op == "dfld" and l.a[1] == "Ok" and l.a[0].op == "rec" else l for l in ls))
    return ls[0] if len(ls) == 1 else t


def mapped_opt(E, m):
    """(_, (key, value, lookup)) of a map filled for the keys whose lookup succeeds"""
    m = drop(m)
    if m.op == "coll" and m.a[1].op == "tup":
        k, v, cond = m.a[1].a[-2], m.a[1].a[-1], m.a[2]
        gs = [a.a[0] for a in subterms(cond) if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "get"]
        if not gs:
            gs = [a for a in subterms(v) if a.op == "call" and last(a.a[0]) == "get"]
        return (None, (drop(k), v, gs[0])) if gs else None
    if m.op != "rec" or m.id not in E.rec_info:
        return None
    init, step = E.rec_info[m.id][:2]
    step = body(step)
    if not empty(init):
        return None
    gs = {a.a[0] for a in subterms(step) if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "get"}
    if len(gs) != 1:
        return None
    g = next(iter(gs))
    if drop(pin_disc(step, g, "None")) is not m:
        return None
    s = pin_disc(step, g, "Some")
    ups = [l for l in leaves(s) if l not in (DEAD, CONT)]
    if not ups or any(u.op != "upd" or last(u.a[0]) != "insert" or u.a[2] is not m for u in ups):
        return None
    ks = {drop(u.a[3]) for u in ups}
    if len(ks) != 1:
        return None
    val = lift(None, lambda l: l.a[4] if l.op == "upd" else l, s)
    return None, (next(iter(ks)), val, g)


def variable_value(ctx, E, val, node, pos):
    """the value of a variable's definition, at the position"""
    v = assume(val, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "call" and last(a.a[0].a[0]) == "get" else None)
    sub = subject(ctx, node, v) if any(x.op == "a.disc" for x in subterms(v)) else None
    if sub is None:
        sub = node
    x = node_of(drop(pin_disc(v, sub, "Variable")))
    x = node_of(one(assume(x, lambda a: "Variable" if a.op == "a.disc" and a.a[0] is sub else None)))
    ok = x.op == "call" and last(x.a[0]) == "into_ast" and x.a[1] is dfld(sub, "Variable", "value") and x.a[2] is pos
    ctx.ob("round: the value of a variable", ok, "a variable is replaced by %s" % show(x, 4)[:140])
