"""C17: definitions of the code section."""
from sa.q import *
from sa.terms import *
from sa.terms import T as T_
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, drop, tok_adt, empty

TITLE = "Every definition of the code section is kept under its name, as written"
RULE = ("The parser of the code section is evaluated with the lexer and the expression parser as sources of tokens and expressions; for every kind of token at each place "
        "of a definition the next state of its loops (definitions, parameters, modules), the place parsing goes on at and the exits are compared with the specified ones.")


def world(p):
    return "w" if last(p) in ("next", "expr_bp") else "r" if last(p) == "peek" else None


def ahead(E, nexts, r):
    """When the first token of a definition is read ahead - before the loop and at the end of every turn: as if it was
    read at the start of the turn. (token, loop, what is known of the place it is read at), result"""
    looped = [e for e in nexts if e.loops]
    if nexts[0].loops or not looped:
        return None, r
    lid, first = looped[0].loops[0], nexts[0].ret
    mine = [i for i in E.rec_info.values() if len(i) > 3 and tuple(i[3].a[:3]) == lid and i[1] is not None]
    T = [i for i in mine if i[0] is first]
    W = [i for i in mine if i[0] is mk("after", first)]
    if len(T) != 1 or len(W) != 1:
        return None, r
    place = mk("rec", "world", *lid[1:])
    t1 = mk(*((first.op,) + first.a[:-1] + (place,)))
    H, memo = {T[0][3]: t1, W[0][3]: mk("after", t1)}, {}
    go = lambda t: subst(t, H, memo) if isinstance(t, T_) else t
    for i in E.rec_info.values():
        i[0], i[1] = go(i[0]), go(i[1])
    for k in E.latch:
        E.latch[k] = go(E.latch[k])
    for e in E.events:
        e.ret, e.guard, e.args = go(e.ret), go(e.guard), [go(a) for a in e.args]
    n = T[0][1]
    if W[0][1] is not mk("after", n) or n.op != first.op or n.a[:-1] != first.a[:-1]:
        return None, r
    return (t1, lid, [first.a[-1], n.a[-1], None, place]), go(r)


def check(ctx):
    f = ctx.fn("parse_scope")
    E = ctx.engine(opaque=lambda g: g.key.startswith(("csvpp::parser::ast_parser", "csvpp::parser::ast_lexer")) or g.name == "into_error", world=world)
    r = ctx.run(E, f, ["parser"])
    me = sym("parser", f.locals[1])
    lexer = E.field(me, "lexer")
    nexts = [e for e in E.events if last(e.path) == "next" and "AstLexer" in e.path]
    ctx.floor("places where a token is read", len(nexts), 5)
    extra, r = ahead(E, nexts, r)
    t1, lid = nexts[0].ret, nexts[0].loops[0] if nexts[0].loops else None
    if extra:
        t1, lid = extra[:2]
    elif lid is None:
        raise Missing("the loop over definitions")
    kinds = variants_of(tok_adt(ctx))
    scope = modules = None
    for l in leaves(r):
        if l.op == "adt" and l.a[1] == "Ok" and l.a[2].op in ("tup", "adt"):
            scope, modules = l.a[2].a[-2:]
    for n, x in (("definitions", scope), ("modules", modules)):
        if not ctx.ob("result: " + n, x is not None and (x.op == "rec" or n == "definitions"), "the %s returned are %s" % (n, show(x, 3)[:100] if x is not None else "none")):
            return
    recs = {}
    for i in E.rec_info.values():
        if len(i) > 3 and tuple(i[3].a[:3]) == lid:
            recs[i[3]] = i
    if extra:
        recs[t1.a[-1]] = extra[2]
    srec = scope if scope.op == "rec" else None
    if srec is None:
        c = {x for x in subterms(scope) if x.op == "rec" and x in recs}
        raise Missing("the definitions carried round the loop (%s)" % show(scope, 2)[:80])
    F0 = {n: E.field(srec, n) for n in ("functions", "variables")}
    init = recs[srec][0]
    for n in F0:
        ctx.ob("start: " + n, empty(E.field(init, n)), "%s start as %s" % (n, show(E.field(init, n), 3)[:80]))
    ctx.ob("start: modules", empty(recs[modules][0]), "modules start as %s" % show(recs[modules][0], 3)[:80])
    W = {"scope": recs[srec][1], "modules": recs[modules][1], "latch": E.latch[lid], "result": r}
    w0 = t1.a[-1]

    def after(x):
        return mk("after", x)

    def tokens(ks, d=None):
        """the state when the next tokens are of these kinds; also the terms of the tokens"""
        out, ts, w = dict(W), [], None
        for i, k in enumerate(ks):
            t = t1 if i == 0 else mk(*((t1.op,) + t1.a[:-1] + (after(ts[-1]),)))
            ts.append(t)
            if k is not None:
                tk = E.field(t, "token")
                out = {n: pin_disc(x, tk, k) for n, x in out.items()}
        return out, ts

    def exprs(S):
        return list(dict.fromkeys(x for n in ("scope", "modules", "latch", "result") for x in subterms(S[n]) if x.op == "call" and last(x.a[0]) == "expr_bp"))

    def goes_on(S, what):
        ctx.ob(what + ": goes on", set(leaves(S["latch"])) <= {TRUE, DEAD, CONT} and TRUE in leaves(S["latch"]), "after %s, the definitions that follow are not read" % what)

    def error(S, what):
        ls = {l for l in leaves(S["result"]) if l not in (DEAD, CONT)}
        ctx.ob(what + ": error", bool(ls) and all(l.op == "adt" and l.a[1] == "Err" for l in ls) and TRUE not in leaves(S["latch"]), "%s is not reported as an error" % what)

    def same_scope(S, what, but=None):
        for n in F0:
            if n != but:
                ctx.ob("%s: %s" % (what, n), drop(E.field(drop(S["scope"]), n)) is F0[n], "%s changes the %s" % (what, n))

    def parser_ok(x, what, at):
        """the expression is parsed from the lexer's next token on, completely"""
        p = x.a[1]
        ok = x.a[2] is c_int(0) and p.op in ("call", "adt") and lexer in list(subterms(p)) and x.a[-1] is after(at) and TRUE in p.a
        ctx.ob(what + ": expression", ok, "the expression of %s is parsed as %s" % (what, show(x, 4)[:160]))

    # the end
    S, _ = tokens(["Eof"])
    oks = {l for l in leaves(S["result"]) if l not in (DEAD, CONT)}
    ctx.ob("end of the section", oks and all(l.op == "adt" and l.a[1] == "Ok" for l in oks) and TRUE not in leaves(S["latch"]), "the definitions are not returned at the end of the section")
    # what begins no definition
    for k in kinds:
        if k not in ("Eof", "FunctionDefinition", "UseModule", "Reference"):
            S, _ = tokens([k])
            error(S, "a definition starting with " + k)

    def text_of(t):
        return E.field(t, "str_match")

    def defined(S, which, key, what):
        v = E.field(drop(S["scope"]), which)
        v = drop(v)
        if v.op == "gate":
            v = [l for l in leaves(v) if l not in (DEAD, CONT)]
            v = v[0] if len(v) == 1 else E.field(S["scope"], which)
        ok = v.op == "upd" and last(v.a[0]) == "insert" and v.a[2] is F0[which] and drop(v.a[3]) is key
        ctx.ob(what + ": kept under its name", ok, "%s is not put among the %s under its name: %s" % (what, which, show(v, 4)[:160]))
        x = drop(E.field(drop(S["scope"]), "exports"))
        if x.op == "gate":
            x = next((l for l in leaves(x) if l not in (DEAD, CONT)), x)
        ctx.ob(what + ": exported", x.op == "upd" and last(x.a[0]) == "insert" and x.a[2] is E.field(srec, "exports") and drop(x.a[3]) is key,
               "%s cannot be imported under its name: %s" % (what, show(x, 4)[:120]))
        return drop(v.a[4]) if ok else None
    # variables
    for k in kinds:
        if k != "VarAssign":
            S, _ = tokens(["Reference", k])
            error(S, "a name followed by " + k)
    S, (a, b) = tokens(["Reference", "VarAssign"])
    xs = [x for x in exprs(S) if x.a[-1] is after(b)]
    if ctx.ob("variable: one expression", len(xs) == 1, "%d expressions are parsed for a variable" % len(xs)):
        parser_ok(xs[0], "a variable", b)
        bad = {n: pin_disc(x, xs[0], "Err") for n, x in S.items()}
        error(bad, "an error in a variable's expression")
        S = {n: pin_disc(x, xs[0], "Ok") for n, x in S.items()}
        goes_on(S, "a variable")
        same_scope(S, "a variable", "variables")
        ctx.ob("variable: modules", drop(S["modules"]) is modules, "a variable changes the modules")
        v = defined(S, "variables", text_of(a), "a variable")
        if v is not None:
            n = node_of(v)
            val = E.field(n, "value") if n.op == "adt" and n.a[1] == "Variable" else None
            ok = val is not None and E.field(n, "name") is text_of(a) and val.op == "adt" and val.a[1] == "Ast" and node_of(val.a[2]) in (mk("dfld", xs[0], "Ok", "0"), dfld(xs[0], "Ok"))
            ctx.ob("variable: value", ok, "a variable is defined as %s" % show(n, 5)[:160])
        ctx.ob("variable: next", next_world(E, recs, lid, w0, S, xs[0], [a, b]), "after a variable, tokens are lost or read again")
    # modules
    S, (a, b) = tokens(["UseModule", None])
    goes_on(S, "use")
    same_scope(S, "use")
    m = drop(S["modules"])
    ok = m.op == "upd" and last(m.a[0]) == "push" and m.a[2] is modules
    ctx.ob("use: module", ok and named(m.a[3], text_of(b)), "a used module is not added to the modules under its name: %s" % show(m, 5)[:160])
    # functions
    for k in kinds:
        if k != "Reference":
            S, _ = tokens(["FunctionDefinition", k])
            error(S, "fn followed by " + k)
        if k != "OpenParen":
            S, _ = tokens(["FunctionDefinition", "Reference", k])
            error(S, "the name of a function followed by " + k)
    S, (a, b, c) = tokens(["FunctionDefinition", "Reference", "OpenParen"])
    inner = [e for e in nexts if len(e.loops) > 1]
    used = [e for e in inner if any(x is e.ret for x in subterms(S["scope"]))]
    if not used:
        raise Missing("the loop over a function's parameters")
    e = used[-1]
    p, il = e.ret, e.loops[-1]
    pk = E.field(p, "token")
    wi = E.rec_info.get(p.a[-1].id) if p.a[-1].op == "rec" else None
    first = wi is not None and any(x is c for x in subterms(sub(wi[0], t1, a, b, c))) or p.a[-1] is after(c)
    ctx.ob("parameters: start", wi is not None and first_world(wi[0], c), "the parameters are not read right after the parenthesis")
    ctx.ob("parameters: each", wi is not None and drop(wi[1]) is after(p), "tokens between parameters are lost")
    args = None
    for k in kinds:
        T_ = {n: pin_disc(x, pk, k) for n, x in S.items()}
        g = pin_disc(E.latch[il], pk, k)
        if k in ("Reference", "Comma"):
            ctx.ob("parameters: %s goes on" % k, TRUE in leaves(g) and FALSE not in leaves(g), "a %s ends the parameters" % k)
        elif k == "CloseParen":
            ctx.ob("parameters: end", TRUE not in leaves(g), "a closing parenthesis does not end the parameters")
            xs = exprs(T_)
            xs = [x for x in xs if x.a[-1] is after(p)]
            if not ctx.ob("function: one expression", len(xs) == 1, "%d expressions are parsed for a function" % len(xs)):
                continue
            parser_ok(xs[0], "a function", p)
            error({n: pin_disc(x, xs[0], "Err") for n, x in T_.items()}, "an error in a function's body")
            T_ = {n: pin_disc(x, xs[0], "Ok") for n, x in T_.items()}
            goes_on(T_, "a function")
            same_scope(T_, "a function", "functions")
            ctx.ob("function: modules", drop(T_["modules"]) is modules, "a function changes the modules")
            v = defined(T_, "functions", text_of(b), "a function")
            if v is not None:
                n = node_of(v)
                if ctx.ob("function: node", n.op == "adt" and n.a[1] == "Function", "a function is defined as %s" % show(n, 4)[:120]):
                    ctx.ob("function: name", E.field(n, "name") is text_of(b), "a function is defined with the name %s" % show(E.field(n, "name"), 4)[:100])
                    ctx.ob("function: body", node_of(E.field(n, "body")) is dfld(xs[0], "Ok"), "a function's body is %s" % show(E.field(n, "body"), 4)[:100])
                    args = E.field(n, "args")
            ctx.ob("function: next", next_world(E, recs, lid, w0, T_, xs[0], [a, b, c]), "after a function, tokens are lost or read again")
        else:
            error(T_, "%s among parameters" % k)
    ok = args is not None and args.op == "rec" and args.id in E.rec_info
    if ctx.ob("parameters: collected", ok, "a function's parameters are %s" % (show(args, 3)[:80] if args is not None else "lost")):
        i = E.rec_info[args.id]
        ctx.ob("parameters: none at first", empty(i[0]), "parameters start as %s" % show(i[0], 3)[:80])
        for k in ("Reference", "Comma"):
            s = drop(pin_disc(i[1], pk, k))
            if k == "Comma":
                ctx.ob("parameters: comma", s is args, "a comma changes the parameters: %s" % show(s, 3)[:80])
            else:
                ctx.ob("parameters: in order", s.op == "upd" and last(s.a[0]) == "push" and s.a[2] is args and s.a[3] is text_of(p), "a parameter is not added at the end: %s" % show(s, 4)[:120])
    outside(ctx)


def sub(t, *a):
    return t


def first_world(t, c):
    """The world after reading c (on every way there)"""
    ls = [l for l in leaves(t) if l not in (DEAD, CONT)]
    return bool(ls) and all(l.op == "after" and l.a[0] is c for l in ls)


def next_world(E, recs, lid, w0, S, last_read, ts):
    """The next definition is read right after this one's last token."""
    if w0.op != "rec" or w0 not in recs:
        return False
    st = recs[w0][1]
    for t, k in zip(ts, {2: ["Reference", "VarAssign"], 3: ["FunctionDefinition", "Reference", "OpenParen"]}[len(ts)]):
        st = pin_disc(st, E.field(t, "token"), k)
    st = drop(pin_disc(st, last_read, "Ok"))
    return st.op == "after" and st.a[0] is last_read


def node_of(t):
    while t.op == "adt" and last(t.a[0]) == "Ast" and len(t.a) == 3:
        t = t.a[2]
    return t


def named(m, text):
    """ModulePath with the parts of text"""
    if m.op == "dfld":
        m = m.a[0]
    ok = m.op == "adt" and last(m.a[0]) == "ModulePath"
    c = m.a[2] if ok else None
    return ok and c.op == "coll" and c.a[0].op == "call" and last(c.a[0].a[0]) == "split" and c.a[0].a[1] is text and c.a[1].op == "elem" and c.a[2] is TRUE or \
        ok and c.op == "arr" and list(c.a) == [text]


def outside(ctx):
    """The whole code section is what is lexed, and its definitions and modules are the module's."""
    f = [g for g in ctx.fns(lambda g: g.name == "parse" and not g.closure and "CodeSectionParser" in g.key)]
    if len(f) != 1:
        raise Missing("the entry of the code section's parser")
    E = ctx.engine(opaque=lambda g: g.key.startswith("csvpp::parser::ast_lexer") or g.name in ("parse_scope", "code_syntax_error"))
    r = ctx.run(E, f[0], ["text", "source"])
    ls = [e for e in E.events if last(e.path) == "new" and "AstLexer" in e.path]
    ctx.ob("section: all of it", len(ls) == 1 and ls[0].args[0].op == "sym" and ls[0].args[0].a[0] == "text", "the code section is not lexed as it is")
    if ls:
        bad = [l for l in leaves(pin_disc(r, ls[0].ret, "Err")) if l not in (DEAD, CONT)]
        ctx.ob("section: errors", bad and all(l.op == "adt" and l.a[1] == "Err" for l in bad), "an error in the tokens of the code section is ignored")
        ps = [e for e in E.events if last(e.path) == "parse_scope"]
        good = [l for l in leaves(pin_disc(r, ls[0].ret, "Ok")) if l not in (DEAD, CONT)]
        ctx.ob("section: result", len(ps) == 1 and good == [ps[0].ret], "the definitions found are not returned")
    g = ctx.fn("load_from_source_from_filename")
    E = ctx.engine(opaque=lambda h: h.key == f[0].key or (h.name == "parse" and "Spreadsheet" in h.key) or (h.name == "try_from" and "SourceCode" in (h.self_ty or "")))
    r = ctx.run(E, g, ["path", "file"])
    ms = [l.a[2] for l in leaves(r) if l.op == "adt" and l.a[1] == "Ok"]
    ps = [e for e in E.events if e.path == f[0].key or (last(e.path) == "parse" and "CodeSectionParser" in e.path)]
    if not ctx.ob("module: section parsed", len(ps) == 1 and bool(ms), "the code section is parsed %d times" % len(ps)):
        return
    p = ps[0]
    code = p.args[0]
    ctx.ob("module: its own section", any(x.op in ("fld", "dfld") and "code_section" in x.a for x in subterms(code)), "the definitions are read from %s" % show(code, 4)[:100])
    err = [l for l in leaves(pin_disc(r, p.ret, "Err")) if l not in (DEAD, CONT)]
    have = code
    while have.op in ("dfld", "ref") and not (have.op == "dfld" and have.a[1] == "Some"):
        have = have.a[0]
    have = have.a[0] if have.op == "dfld" else have
    err = [l for l in leaves(pin_disc(pin_disc(r, have, "Some"), p.ret, "Err")) if l not in (DEAD, CONT)]
    ctx.ob("module: errors", err and all(l.op == "adt" and l.a[1] == "Err" for l in err), "an error in the code section is ignored")
    some_ = pin_disc(pin_disc(r, have, "Some"), p.ret, "Ok")
    for l in leaves(some_):
        if l.op == "adt" and l.a[1] == "Ok":
            m = l.a[2]
            for n, i in (("scope", "0"), ("required_modules", "1")):
                v = drop(E.field(m, n))
                v = assume(v, lambda a: "Some" if a.op == "a.disc" and a.a[0] is have else "Ok" if a.op == "a.disc" and last(a.a[1]) == "Result" else None)
                ctx.ob("module: " + n, v is E.field(dfld(p.ret, "Ok"), i), "a module's %s is %s" % (n, show(v, 4)[:100]))
    for l in leaves(pin_disc(r, have, "None")):
        if l.op == "adt" and l.a[1] == "Ok":
            v = assume(E.field(l.a[2], "required_modules"), lambda a: None if a.op != "a.disc" else "None" if a.a[0] is have else "Ok" if a.a[0].op == "call" else None)
            ctx.ob("module: without a code section", empty(v), "a module without a code section requires %s" % show(v, 3)[:80])
