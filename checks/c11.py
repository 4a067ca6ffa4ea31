"""C11: what `use` brings into a module."""
from sa.q import *
from sa.terms import *
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, drop
from checks.c16 import live
from checks.c10 import call_of, ok_of, runs_on, within

TITLE = "A module sees its own definitions and those of the modules it uses, as evaluated there"
RULE = ("Every path through the module loader is followed from the `use` statements to the scopes: each required module must be loaded from the file beside its user and kept under its name; "
        "modules are evaluated in the order of the strongly connected components of the graph of all of them; a merge may add only exported names that are not there yet, and all of these; "
        "variables are evaluated before the functions which mention them, everything in its own module's scope.")


def base(E, t, seen=()):
    """the place whose (maybe modified) value t is"""
    while True:
        if t.op == "rec" and t.id in E.rec_info and t.id not in seen:
            seen += (t.id,)
            t = E.rec_info[t.id][0]
        elif t.op == "upd":
            t = t.a[2] if isinstance(t.a[1], int) else t.a[1]
        elif t.op in ("dfld",) and t.a[1] in ("Some", "Ok"):
            t = t.a[0]
        elif t.op == "ref":
            t = t.a[0]
        elif t.op == "iter":
            t = t.a[0]
        else:
            return t


def is_field(E, t, owner, name):
    """Is t field `name` of the (maybe modified) value which `owner` accepts?"""
    t = peel(E, t)
    return t.op in ("fld",) and name in t.a and owner(base(E, t.a[0]))


def peel(E, t):
    seen = ()
    while t.op == "rec" and t.id in E.rec_info and t.id not in seen or t.op == "upd":
        seen += (t.id,)
        t = E.rec_info[t.id][0] if t.op == "rec" else t.a[2] if isinstance(t.a[1], int) else t.a[1]
    return t


def nexts_on(a, other="Some"):
    if a.op == "a.disc":
        if a.a[0].op == "next" or call_of(a.a[0], "next"):
            return other
        return {"Result": "Ok", "Option": "Some"}.get(last(a.a[1]))


def always(e, more=lambda a: None):
    """Does event e happen in each turn of its loops, as long as nothing fails?"""
    def f(a):
        v = more(a)
        if v is not None:
            return v
        w = within(e, a)
        if w is not None:
            return w
        if a.op == "a.disc" and last(a.a[1]) == "Option":
            return "Some"
    g = assume(e.guard, f)
    return [l for l in leaves(g) if l is not DEAD] == [TRUE]


def complete(E, e):
    """Do the loops around event e go on to their ends, unless something fails?"""
    def found(a):
        if a.op == "a.disc" and call_of(a.a[0], "get") and last(a.a[1]) == "Option":
            return "Some"
    for l in e.loops:
        if l in E.latch:
            on = live(assume(runs_on(E, l), found))
            if TRUE not in on or FALSE in on:
                return False
    return True


def elements(E, t, pred):
    """t is an element of a collection which pred accepts"""
    if t.op != "elem":
        return False
    s = t.a[0]
    while s.op in ("ref", "iter") or s.op == "call" and last(s.a[0]) in ("iter", "into_iter", "rev", "cloned", "copied") or s.op == "rev":
        s = next(x for x in s.a if isinstance(x, T))
    return pred(s)


def iterated(E, e):
    """the sequences which the innermost loop around event e goes through"""
    out = []
    for a in atoms_of(E.latch.get(e.loops[-1], TRUE)) if e.loops else ():
        if a.op == "a.disc" and (a.a[0].op == "next" or call_of(a.a[0], "next")):
            t = next(x for x in a.a[0].a if isinstance(x, T))
            out += live(E.rec_info[t.id][0]) if t.op == "rec" and t.id in E.rec_info else [t]
    return out


# --- merging of scopes -----------------------------------------------------------------------------------------------


def merging(ctx, f):
    E = ctx.engine()
    ctx.run(E, f, ["scope", "other"])
    me, other = [sym(n, f.locals[i + 1]) for i, n in enumerate(("scope", "other"))]
    exp = E.field(other, "exports")
    for kind in ("functions", "variables"):
        src, dst = E.field(other, kind), E.field(me, kind)
        mine = lambda t: base(E, t) is dst or is_field(E, t, lambda b: b is me, kind)
        ins = [e for e in E.events if last(e.path) in ("insert", "or_insert", "or_insert_with", "extend") and mine(e.args[0])]
        ent = [e for e in E.events if last(e.path) == "entry" and mine(e.args[0])]
        if len(ent) == 1 and not ins:
            # entry().or_insert(): never replaces anything
            ins = [e for e in E.events if last(e.path) in ("or_insert", "or_insert_with") and e.args[0] is ent[0].ret]
            if len(ins) == 1:
                from_entry(ctx, E, kind, ent[0], ins[0], src, exp)
                continue
        if not ctx.ob("merge: %s" % kind, len(ins) == 1 and last(ins[0].path) == "insert", "%s of used modules are added at %d places" % (kind, len(ins))):
            continue
        e = ins[0]
        key, val = drop(e.args[1]), drop(e.args[2])
        exported = elements(E, key, lambda s: s is exp)
        entry = lambda t: call_of(t, "get") and t.a[1] is src and drop(t.a[2]) is key
        if exported:
            ok = entry(ok_of(val)) or val.op == "idx" and val.a[0] is src and val.a[1] is key
        else:
            m = [x for x in subterms(key) if x.op == "elem" and x.a[0] is src]
            ok = bool(m) and key is E.field(m[0], "0") and val is E.field(m[0], "1")
        ctx.ob("merge: %s: under their names" % kind, ok, "%s is added as %s" % (show(val, 3)[:80], show(key, 3)[:60]), where(e))

        def world(is_exported, defined, there):
            def f(a):
                t = a.a[0]
                if a.op == "a.disc" and entry(t):
                    return "Some" if defined else "None"
                if t.op == "call" and last(t.a[0]) in ("contains_key", "get", "contains") and drop(t.a[2]) is key:
                    v = there if mine(t.a[1]) else defined if t.a[1] is src else is_exported if t.a[1] is exp else None
                    if v is not None and a.op == "a.disc":
                        return "Some" if v else "None"
                    return v
                return within(e, a)
            return f
        on = lambda *w: [l for l in leaves(assume(e.guard, world(*w))) if l is not DEAD]
        ctx.ob("merge: %s: all new ones" % kind, on(True, True, False) == [TRUE], "some %s of used modules are left out: %s" % (kind, show(assume(e.guard, world(True, True, False)), 3)[:100]), where(e))
        ctx.ob("merge: %s: own ones are kept" % kind, not satisfiable(assume(e.guard, world(True, True, True))), "%s of used modules replace those which are there" % kind, where(e))
        ctx.ob("merge: %s: only exported" % kind, exported or not satisfiable(assume(e.guard, world(False, True, False))), "%s are added although the used module only uses them itself" % kind, where(e))
        ctx.ob("merge: %s: complete" % kind, complete(E, e) and bool(e.loops), "only some of the %s of a used module are added" % kind, where(e))
    touched = [e for e in E.events if last(e.path) in ("insert", "remove", "clear", "retain", "extend", "drain", "entry") and not any(base(E, e.args[0]) is E.field(me, k) or is_field(E, e.args[0], lambda b: b is me, k) for k in ("functions", "variables"))]
    ctx.ob("merge: nothing else", not touched, "a merge also changes %s" % [show(e.args[0], 3)[:60] for e in touched][:1])
    ex = E.field(final_of(E, me), "exports")
    ctx.ob("merge: not exported again", ex is E.field(me, "exports") or ex.op == "fld" and "exports" in ex.a and base(E, ex.a[0]) is me, "what is used becomes exported: %s" % show(ex, 3)[:80])


def from_entry(ctx, E, kind, ent, e, src, exp):
    key, val = drop(ent.args[1]), drop(e.args[1])
    val = val.a[-1] if val.op == "clo" else val
    entry = lambda t: call_of(t, "get") and t.a[1] is src and drop(t.a[2]) is key
    ok = elements(E, key, lambda s: s is exp) and (entry(ok_of(drop(val))) or val.op == "idx" and val.a[0] is src and val.a[1] is key)
    ctx.ob("merge: %s: under their names" % kind, ok, "%s is added as %s" % (show(val, 3)[:80], show(key, 3)[:60]), where(e))
    ctx.ob("merge: %s: all new ones" % kind, always(e), "some %s of used modules are left out: %s" % (kind, show(e.guard, 3)[:100]), where(e))
    none = assume(e.guard, lambda a: "None" if a.op == "a.disc" and entry(a.a[0]) else within(e, a))
    ctx.ob("merge: %s: only exported" % kind, not satisfiable(none), "%s are added which are not exported" % kind, where(e))
    ctx.ob("merge: %s: complete" % kind, complete(E, e) and bool(e.loops), "only some of the %s of a used module are added" % kind, where(e))


def final_of(E, me):
    for k, v in E.state.items():
        if isinstance(v, T) and base(E, v) is me:
            return v
    return me


# --- loading ---------------------------------------------------------------------------------------------------------


def loading(ctx):
    f = ctx.fn("load", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g.name == "load_module" and g.key.startswith("csvpp"))
    ctx.run(E, f, ["loader", "module"])
    loader, module = [sym(n, f.locals[i + 1]) for i, n in enumerate(("loader", "module"))]
    req = E.field(module, "required_modules")
    tried = E.field(loader, "attempted")
    lm = [e for e in E.events if last(e.path) == "load_module"]
    if not ctx.ob("load: required modules", len(lm) == 1, "modules are loaded at %d places" % len(lm)):
        return
    c = lm[0]
    ctx.ob("load: by the same loader", c.args[0] is loader, "another loader is used: %s" % show(c.args[0], 3)[:60], where(c))
    ctx.ob("load: relative to its user", c.args[2] is E.field(module, "module_path"), "modules are looked for relative to %s" % show(c.args[2], 3)[:60], where(c))

    def new(a):
        t = a.a[0]
        if t.op == "call" and last(t.a[0]) in ("contains", "insert") and any(x is tried for x in subterms(base(E, t.a[1]))):
            return last(t.a[0]) == "insert"
    marks = [e for e in E.events if last(e.path) == "insert"]
    known = [e for e in marks if any(x is tried for x in subterms(base(E, e.args[0])))]
    ctx.ob("load: once", bool(known) and all(elements(E, e.args[1], lambda s: s is req) and always(e, new) for e in known), "modules are not marked as being loaded")
    pool = [e for e in E.events if last(e.path) in ("insert", "push") and e not in known and elements(E, e.args[1], lambda s: s is req)]
    over = iterated(E, c)
    if pool:
        # those which have to be loaded are collected first
        which = {base(E, e.args[0]) for e in pool}
        ok = all(always(e, new) and complete(E, e) for e in pool) and always(c, lambda a: None) and bool(over) and all(base(E, s) in which for s in over) and \
            all(elements(E, x, lambda s: s is req or base(E, s) in which) for x in live(hoist(c.args[1])) if not any(y in (CONT, DEAD) for y in subterms(x)))
    else:
        ok = elements(E, c.args[1], lambda s: s is req) and always(c, new)
    ctx.ob("load: each of them", ok, "not every required module is loaded: %s" % show(c.args[1], 4)[:100], where(c))
    ctx.ob("load: all of them", complete(E, c), "loading ends early", where(c))

    # each one is kept, and what it uses is loaded
    f = ctx.fn("load_module", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g.name in ("load", "load_from_cache", "load_from_source_relative") and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["loader", "path", "relative"])
    loader, path, rel = [sym(n, f.locals[i + 1]) for i, n in enumerate(("loader", "path", "relative"))]
    srcs = [e for e in E.events if last(e.path).startswith(("load_from_cache", "load_from_source_relative"))]
    for e in srcs:
        ctx.ob("load: what was asked for", [drop(x) for x in e.args[:3]] == [path, rel, E.field(loader, "loader_root")], "a module is read from %s" % [show(x, 3)[:40] for x in e.args], where(e))
    got = {dfld(e.ret, "Ok") for e in srcs}
    okd_ = lambda a: nexts_on(a)
    of = lambda t: [l for l in live(assume(t, okd_))]
    ins = [e for e in E.events if last(e.path) == "insert" and any(x is E.field(loader, "loaded") for x in subterms(e.args[0]))]
    ctx.ob("load: kept", len(ins) == 1 and drop(ins[0].args[1]) is path and all(l in got for l in of(ins[0].args[2])) and always(ins[0]), "loaded modules are not kept under their names")
    nest = [e for e in E.events if last(e.path) == "load"]
    ctx.ob("load: indirectly used", len(nest) == 1 and nest[0].args[0] is loader and all(l in got for l in of(nest[0].args[1])) and always(nest[0]), "what a used module uses is not loaded")


def files(ctx):
    """`use x` means the file x.csvpp beside the one that uses it; the main module's is in the directory of the input."""
    f = ctx.fn("filename_relative_to", self_has="ModulePath")
    E = ctx.engine()
    r = ctx.run(E, f, ["path", "relative"])
    path, rel = [sym(n, f.locals[i + 1]) for i, n in enumerate(("path", "relative"))]
    of = lambda t, m: is_path_of(E, t, m)
    ok = call_of(r, "join") and of(r.a[2], path)
    ctx.ob("file: its name", ok, "the file of a module is %s" % show(r, 4)[:100])
    if ok:
        ls = [l for l in live(r.a[1])]
        par = [l for l in ls if call_of(ok_of(l), "parent") and of_any(E, ok_of(l).a[1], rel)]
        ctx.ob("file: its directory", bool(par) and all(l in par or no_path(l) for l in ls) and all(l in par for l in live(with_parent(r.a[1]))), "it is looked for in %s" % show(r.a[1], 4)[:100])
    for f in ctx.fns(lambda g: g.name in ("load_from_cache", "load_from_source_relative", "load_from_object_code") and not g.closure and g.key.startswith("csvpp")):
        E = ctx.engine(opaque=lambda g: g is not f and g.key.startswith("csvpp"))
        ctx.run(E, f, ["path", "relative", "root"])
        path, rel, root = [sym(n, f.locals[i + 1]) for i, n in enumerate(("path", "relative", "root"))]
        for e in E.events:
            n = last(e.path).split("::<")[0]
            if n.startswith(("load_from_cache", "load_from_source_relative", "load_from_object_code")) and not n.endswith("filename"):
                ctx.ob("file: %s" % f.name, [drop(x) for x in e.args[:3]] == [path, rel, root], "%s is given %s" % (n, [show(x, 3)[:40] for x in e.args]), where(e))
            elif n.endswith("from_filename"):
                fn = drop(e.args[-1])
                ok = call_of(fn, "join") and drop(fn.a[1]) is root and call_of(fn.a[2], "filename_relative_to") and [drop(x) for x in fn.a[2].a[1:3]] == [path, rel]
                ctx.ob("file: %s" % f.name, ok, "a module is read from %s" % show(fn, 4)[:100], where(e))
                if len(e.args) == 2:
                    ctx.ob("file: %s: name" % f.name, drop(e.args[0]) is path, "a module is named %s" % show(e.args[0], 3)[:60], where(e))
    # the main module
    f = ctx.fn("compile", self_has="Compiler")
    E = ctx.engine(opaque=lambda g: g.name in ("load_main", "load_from_cache_from_filename", "load_from_source_from_filename", "eval", "write_object_file") and g.key.startswith("csvpp"))
    ctx.run(E, f, ["compiler"])
    inp = E.field(sym("compiler", f.locals[1]), "input_filename")
    for e in E.events:
        if last(e.path).split("::<")[0] == "load_main":
            ls = live(e.args[1])
            par = [l for l in ls if call_of(ok_of(l), "parent") and ok_of(l).a[1] is inp]
            ctx.ob("file: directory of the input", bool(par) and all(l in par or no_path(l) for l in ls) and all(l in par for l in live(with_parent(e.args[1]))), "modules are looked for in %s" % show(e.args[1], 4)[:100], where(e))
        elif last(e.path).endswith("from_filename"):
            ctx.ob("file: main module", e.args[1] is inp, "the main module is read from %s" % show(e.args[1], 4)[:80], where(e))
            comps = [x for x in subterms(e.args[0]) if call_of(x, "components")]
            ok = bool(comps) and all(base(E, x.a[1]) in (inp, ok_of_call(inp)) or call_of(base(E, x.a[1]), "file_name") or call_of(base(E, x.a[1]), "file_stem") for x in comps)
            ctx.ob("file: name of the main module", ok, "the main module is named %s" % show(e.args[0], 4)[:100], where(e))


def no_path(l):
    return l is c_str("") or call_of(l, "default") or call_of(l, "new") and len(l.a) == 1


def with_parent(t):
    """t for a path that has a parent"""
    return assume(t, lambda a: "Some" if a.op == "a.disc" and call_of(a.a[0], "parent") else None)


def ok_of_call(t):
    return t


def is_path_of(E, t, m):
    """x/y/z.csvpp for the module path m"""
    if t.op in ("upd", "call") and last(t.a[0]) in ("set_extension", "with_extension"):
        args = [x for x in t.a if isinstance(x, T)]
        return args[-1] is c_str("csvpp") and of_any(E, args[0], m)
    return False


def of_any(E, t, m):
    """the components of m, in order, with or without an extension"""
    if t.op in ("upd", "call") and last(t.a[0]) in ("set_extension", "with_extension"):
        t = [x for x in t.a if isinstance(x, T)][0]
    e = each_in_order(E, t, E.field(m, "0"))
    return e is not None and e.op == "elem"


# --- evaluating ------------------------------------------------------------------------------------------------------


def direct(ctx, merge):
    """The main module gets the definitions of the modules it uses itself."""
    f = ctx.fn("merge_direct_dependencies", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g is merge)
    r = ctx.run(E, f, ["loader"])
    loader = sym("loader", f.locals[1])
    main = E.field(loader, "main_module")
    ms = [e for e in E.events if last(e.path) == merge.name and "Scope" in e.path]
    if not ctx.ob("main: merged", len(ms) == 1, "the main module gets definitions at %d places" % len(ms)):
        return
    e = ms[0]
    is_main = lambda b: b is main
    ctx.ob("main: into its scope", is_field(E, e.args[0], is_main, "scope"), "used definitions are added to %s" % show(e.args[0], 3)[:80], where(e))
    ctx.ob("main: of what it uses", used_scope(E, e.args[1], is_main, lambda s: any(x is E.field(loader, "loaded") for x in subterms(s))), "the main module gets the definitions of %s" % show(e.args[1], 4)[:120], where(e))
    ok = lambda a: None if a.op == "a.disc" else (None if not any(x is E.field(loader, "failed") for x in subterms(a.a[0])) else 0 if call_of(a.a[0], "len") else True if call_of(a.a[0], "is_empty") else None)
    ctx.ob("main: each", always(e, ok), "some used modules are left out: %s" % show(e.guard, 3)[:100], where(e))
    ctx.ob("main: all", complete(E, e), "merging ends early", where(e))
    oks = [l for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    for l in oks:
        m = l.a[2]
        other = [x for x in ("spreadsheet", "source_code", "module_path", "required_modules", "needs_eval") if not (E.field(m, x) is E.field(main, x) or is_field(E, E.field(m, x), is_main, x))]
        ctx.ob("main: result", not other, "the main module is given another %s" % other)
        sc = E.field(m, "scope")
        kept = sc.op == "rec" and tuple(sc.a[:2]) == tuple(e.loops[-1][:2]) or base(E, sc.a[0] if sc.op == "fld" else sc) is main and (m.op == "rec" and tuple(m.a[:2]) == tuple(e.loops[-1][:2]))
        ctx.ob("main: has them", kept, "the definitions of used modules are dropped: %s" % show(sc, 3)[:80])
    ctx.ob("main: some result", bool(oks), "there is no main module")


def used_scope(E, t, owner, store):
    """Is t the scope of the module that one of owner's `use` statements names, in the map that store accepts?"""
    t = ok_of(drop(t))
    if t.op == "fld" and "scope" in t.a:
        t = ok_of(t.a[0])
    m = t
    if not (m.op == "idx" or call_of(m, "get")):
        return False
    st, key = (m.a[0], m.a[1]) if m.op == "idx" else (m.a[1], m.a[2])
    return store(base(E, st)) and elements(E, drop(key), lambda s: is_field(E, s, owner, "required_modules"))


def evaluating(ctx, merge):
    f = ctx.fn("eval_dependencies", self_has="ModuleLoader")
    ev = ctx.fn("eval", self_has="Ast")
    E = ctx.engine(opaque=lambda g: g is merge or g is ev or g.name in ("load_dependency_graph", "eval_error", "write_object_file") and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["loader"])
    loader = sym("loader", f.locals[1])
    loaded = E.field(loader, "loaded")
    graphs = {e.ret for e in E.events if last(e.path) == "load_dependency_graph"}
    evals = sorted([e for e in E.events if e.path == ev.key], key=lambda e: e.seq)
    merges = [e for e in E.events if e.path == merge.key]
    if not ctx.ob("eval: shape", len(graphs) == 1 and len(merges) == 1 and evals, "dependencies are merged at %d and evaluated at %d places" % (len(merges), len(evals))):
        return
    graph, m = next(iter(graphs)), merges[0]
    # the module: the one of the next node
    mods = {base(E, x) for x in subterms(m.args[0]) if x.op == "fld" and "scope" in x.a for x in [x.a[0]]}
    ok = len(mods) == 1
    mod = next(iter(mods)) if ok else None
    ok = ok and call_of(mod, "get_mut") and any(x is loaded for x in subterms(base(E, mod.a[1])))
    if not ctx.ob("eval: each module", ok, "what is evaluated is %s" % [show(x, 3)[:60] for x in mods]):
        return
    this = lambda b: b is mod
    key = drop(mod.a[2])
    ok = key.op in ("idx",) and key.a[0] is graph and key.a[1].op == "elem" and key.a[1].a[0].op == "elem"
    scc = key.a[1].a[0].a[0] if ok else None
    ok = ok and call_of(scc, "tarjan_scc") or ok and call_of(scc, "kosaraju_scc")
    ok = ok and scc.a[1] is graph
    ctx.ob("eval: in the order of the graph", ok, "modules are evaluated in the order of %s" % show(key, 5)[:120])
    outer = [l for l in m.loops if l != m.loops[-1]]
    for e in evals[:1]:
        its = [E.rec_info[x.id][0] for x in rec_terms(E) if tuple(x.a[:2]) == tuple(outer[0][:2]) and x.op == "rec" and E.rec_info[x.id][0].op in ("iter", "coll", "rev", "flat")] if outer else []
        ok = any(i.op in ("iter", "coll") and i.a[0].op == "flat" and i.a[0].a[0] is scc for i in its)
        back = any(x.op == "rev" or call_of(x, "rev") for i in its if any(y is scc for y in subterms(i)) for x in subterms(i))
        ctx.ob("eval: dependencies first", ok and not back, "modules are evaluated in the order of %s" % [show(i, 3)[:80] for i in its][:2])

    def asked(a):
        t = a.a[0]
        if a.op == "a.val" and t.op == "fld" and "needs_eval" in t.a:
            return True
    # what it uses
    ctx.ob("eval: into its scope", is_field(E, m.args[0], this, "scope"), "used definitions are added to %s" % show(m.args[0], 3)[:80], where(m))
    store = base(E, map_of(m.args[1])) if map_of(m.args[1]) is not None else None
    ok = store is not None and used_scope(E, m.args[1], this, lambda s: s is store)
    ctx.ob("eval: of what it uses", ok, "a module gets the definitions of %s" % show(m.args[1], 4)[:120], where(m))
    ctx.ob("eval: all it uses", always(m, asked) and complete(E, m), "some used modules are left out: %s" % show(m.guard, 3)[:100], where(m))
    if store is not None and store is not base(E, mod.a[1]):
        fills = [e for e in E.events if last(e.path) == "insert" and base(E, e.args[0]) is store]
        first = [e for e in fills if e.seq < m.seq]
        elems = lambda e: [x for x in subterms(e.args[2]) if x.op == "elem" and any(y is loaded for y in subterms(base(E, x.a[0])))]
        ok = bool(first) and all(elems(e) and drop(e.args[1]) is E.field(elems(e)[0], "0") and drop(e.args[2]) is E.field(E.field(elems(e)[0], "1"), "scope") and always(e) and complete(E, e) for e in first)
        if store.op == "coll" and store.a[1].op == "tup" and undead(store.a[2], TRUE) is TRUE:
            x = [x for x in subterms(store.a[1]) if x.op == "elem" and any(y is loaded for y in subterms(base(E, x.a[0])))]
            ok = bool(x) and drop(store.a[1].a[0]) is E.field(x[0], "0") and drop(store.a[1].a[1]) is E.field(E.field(x[0], "1"), "scope")
        ctx.ob("eval: known scopes", ok, "the scopes of modules which are not evaluated are missing")
        after = [e for e in fills if e.seq > evals[-1].seq]
        ok = bool(after) and all(always(e, asked) and all(named(E, l, this, key) for l in alive(e.args[1])) and all(is_field(E, l, this, "scope") for l in alive(e.args[2])) and len(e.loops) == len(outer) for e in after)
        ctx.ob("eval: updated", ok, "modules do not get the evaluated definitions of what they use: %s" % [show(e.args[2], 4)[:80] for e in after][:1])
        for e in after:
            ctx.ob("eval: as evaluated", all(later(E, l, evals[-1]) for l in alive(e.args[2])), "modules get definitions of what they use before these are evaluated", where(e))
    # its own definitions
    done = []
    for e in evals:
        ctx.ob("eval: after merging", e.seq > m.seq and e.loops[:len(outer)] == m.loops[:len(outer)], "definitions are evaluated before those they use are known", where(e))
        ent = [x for x in subterms(e.args[0]) if x.op == "elem"]
        kind = None
        for k in ("variables", "functions"):
            if any(is_field(E, s, lambda b: True, k) for x in ent[:1] for s in [x.a[0]]) and scope_field(E, ent[0].a[0], this):
                kind = k
        if not ctx.ob("eval: definitions", kind is not None and drop(e.args[0]) is E.field(ent[0], "1"), "what is evaluated is %s" % show(e.args[0], 4)[:80], where(e)):
            continue
        ctx.ob("eval: %s: each" % kind, always(e, asked) and complete(E, e), "some %s are not evaluated" % kind, where(e))
        ctx.ob("eval: %s: no position" % kind, (lambda n: n.op == "adt" and n.a[1] == "None")(drop(e.args[2])), "definitions are evaluated at %s" % show(e.args[2], 3)[:60], where(e))
        ins = [i for i in E.events if i.seq > e.seq and last(i.path) == "insert" and drop(i.args[2]) is dfld(e.ret, "Ok")]
        ok = len(ins) == 1 and drop(ins[0].args[1]) is E.field(ent[0], "0") and scope_field(E, ins[0].args[0], this) and is_field(E, ins[0].args[0], lambda b: True, kind) and always(ins[0], asked)
        ctx.ob("eval: %s: kept" % kind, ok, "evaluated %s are not kept under their names" % kind, where(e))
        ctx.ob("eval: %s: errors" % kind, must_stop(E, r, e), "errors in %s are swallowed" % kind, where(e))
        fs, vs = scope_part(E, e.args[1], this, "functions"), scope_part(E, e.args[1], this, "variables")
        ctx.ob("eval: %s: own variables" % kind, vs == "all", "%s are evaluated without the module's variables: %s" % (kind, show(e.args[1], 3)[:80]), where(e))
        done.append((kind, fs))
    ctx.count("evaluations", len(done))
    want = [("variables", "all"), ("functions", "none"), ("functions", "all")]
    ctx.ob("eval: what when", done == want, "definitions are evaluated in the order %s" % done)
    oks = [l for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    ctx.ob("eval: goes through", all(complete(E, e) for e in evals + merges) and bool(oks), "evaluation ends early")


def rec_terms(E):
    return [v[3] if len(v) > 3 else None for v in E.rec_info.values() if len(v) > 3]


def map_of(t):
    t = ok_of(drop(t))
    if t.op == "fld" and "scope" in t.a:
        t = ok_of(t.a[0])
    return t.a[0] if t.op == "idx" else t.a[1] if call_of(t, "get") else None


def alive(t):
    """the leaves of t once all loops are over and nothing has failed"""
    return live(assume(t, lambda a: "None" if a.op == "a.disc" and a.a[0].op == "next" else {"Result": "Ok", "Option": "Some"}.get(last(a.a[1])) if a.op == "a.disc" else None))


def named(E, t, this, key):
    return drop(t) is key or is_field(E, t, this, "module_path")


def later(E, t, e):
    """t: the value after the loop around e"""
    return any(x.op == "rec" and tuple(x.a[:2]) == tuple(e.loops[-1][:2]) for x in subterms(t))


def scope_field(E, t, this):
    """a field of the scope of the module"""
    t = peel(E, t)
    return t.op == "fld" and is_field(E, t.a[0], this, "scope")


def scope_part(E, s, this, part):
    """Has scope s the module's own functions (variables)?"""
    v = drop(E.field(s, part))
    if v.op == "fld" and part in v.a and scope_field(E, v, this):
        return "all"
    return "none" if empty_seq(v) or v.op == "default" else "other"


def graph(ctx):
    """All loaded modules and the main module are nodes, all of their `use`s edges from the user to the used module."""
    f = ctx.fn("load_dependency_graph", self_has="ModuleLoader")
    E = ctx.engine()
    r = ctx.run(E, f, ["loader"])
    loader = sym("loader", f.locals[1])
    main, loaded = E.field(loader, "main_module"), E.field(loader, "loaded")
    edges = [e for e in E.events if last(e.path) in ("add_edge", "update_edge")]
    nodes = [e for e in E.events if last(e.path) == "add_node"]
    seen = set()
    for e in edges:
        a, b = [who(E, x) for x in e.args[1:3]]
        ok = len(a) == 1 and len(b) == 1
        u, v = (a.pop(), b.pop()) if ok else (None, None)
        kind = None
        if ok and u is E.field(main, "module_path") and elements(E, v, lambda s: s is E.field(main, "required_modules")):
            kind = "main"
        if ok and u.op in ("fld", "dfld") and u.a[0].op == "elem" and any(x is loaded for x in subterms(u.a[0])):
            own = E.field(u.a[0], "1")
            if u is E.field(u.a[0], "0") or u is E.field(own, "module_path"):
                if elements(E, v, lambda s: s is E.field(own, "required_modules")):
                    kind = "dependencies"
        ctx.ob("graph: edge", kind is not None, "there is an edge from %s to %s" % tuple(show(x, 5)[:90] for x in e.args[1:3]), where(e))
        seen.add(kind)
        ctx.ob("graph: %s: each" % kind, always_graph(E, e) and complete(E, e), "some uses are left out: %s" % show(e.guard, 3)[:100], where(e))
    ctx.ob("graph: all edges", {"main", "dependencies"} <= seen, "the graph has only the edges of %s" % sorted(map(str, seen)))
    known = [e for e in nodes if any(x is loaded for x in subterms(e.args[1])) and not any(y.op == "elem" and y.a[0].op != "elem" and "required_modules" in show(y, 3) for y in [drop(e.args[1])])]
    ctx.ob("graph: all modules", bool(known), "modules which nobody uses are not nodes")
    first = min(nodes, key=lambda e: e.seq, default=None)
    ctx.ob("graph: main module", first is not None and drop(first.args[1]) is E.field(main, "module_path"), "the first node is not the main module")
    for l in live(r):
        ctx.ob("graph: result", any(call_of(x, "new") or call_of(x, "default") or x.op == "default" for x in [base(E, l)]), "the graph is %s" % show(l, 3)[:80])


def always_graph(E, e):
    def f(a):
        w = within(e, a)
        if w is not None:
            return w
    g = assume(e.guard, f)
    return [l for l in leaves(g) if l is not DEAD] == [TRUE]


def who(E, t):
    """the module paths whose node t is"""
    out = set()
    for l in live(t):
        l = ok_of(drop(l))
        if call_of(l, "add_node"):
            out.add(drop(l.a[2]))
        elif call_of(l, "get") and remembered(E, base(E, l.a[1])):
            out.add(drop(l.a[2]))
        elif call_of(l, "or_insert_with") and call_of(l.a[1], "entry") and remembered(E, base(E, l.a[1].a[1])):
            out.add(drop(l.a[1].a[2]))
        elif l.op == "idx":
            out.add(drop(l.a[1]))
        else:
            out.add(l)
    return out


def remembered(E, m):
    """Is the map m only ever told the nodes of the paths it is told them for?"""
    ins = [e for e in E.events if last(e.path) == "insert" and base(E, e.args[0]) is m]
    for e in ins:
        for l in live(e.args[2]):
            l = ok_of(drop(l))
            if not (call_of(l, "add_node") and drop(l.a[2]) is drop(e.args[1]) or call_of(l, "get") and drop(l.a[2]) is drop(e.args[1])):
                return False
    for e in E.events:
        if last(e.path) in ("or_insert_with", "or_insert") and call_of(e.args[0], "entry") and base(E, e.args[0].a[1]) is m:
            new = [n for n in E.events if last(n.path) == "add_node" and n.seq < e.seq and drop(n.args[1]) is drop(e.args[0].a[2]) and n.loops == e.loops]
            if not new or last(e.path) != "or_insert_with":
                return False
    return bool(ins)


def check(ctx):
    merge = ctx.fn("merge", self_has="Scope")
    merging(ctx, merge)
    loading(ctx)
    files(ctx)
    direct(ctx, merge)
    graph(ctx)
    evaluating(ctx, merge)
