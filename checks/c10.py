"""C10: object files never change what is compiled."""
from sa.q import *
from sa.terms import *
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, drop
from checks.c16 import live

TITLE = "Reusing object files never changes what is compiled"
RULE = ("The values that reach the rest of the compiler from a deserialized object file are followed from bincode::deserialize_from: for the main module "
        "and for dependencies, none may remain once one of the conditions that make it unusable is assumed (--no-cache, key/values, another source file, a "
        "newer source, an older compiler, the other kind of object). Dependents of a changed module, what is written, and when, are checked the same way.")

FROM_SOURCE = "load_from_source_from_filename"


def call_of(t, name):
    return t.op == "call" and last(t.a[0]) == name


def ok_of(t):
    return t.a[0] if t.op == "dfld" and t.a[1] in ("Ok", "Some") else t


def order(a, isx, isy, o):
    """What the comparison a of x and y says when x is `o` (< = >) y, None if it is none."""
    flip = {"<": ">", ">": "<", "=": "="}

    def side(l, r):
        if isx(l) and isy(r):
            return o
        if isx(r) and isy(l):
            return flip[o]
    t = a.a[0]
    if a.op == "a.disc" and t.op in ("dfld",) and t.a[1] == "Some":
        t = t.a[0]
    cmps = ("cmp", "partial_cmp")
    names = {"<": "Less", "=": "Equal", ">": "Greater"}
    if a.op == "a.disc" and t.op == "call" and last(t.a[0]) in cmps and len(t.a) == 3:
        s = side(t.a[1], t.a[2])
        if s is None:
            return None
        if last(t.a[0]) == "partial_cmp" and a.a[0] is t:
            return "Some"
        return names[s]
    if a.op != "a.val":
        return None
    if t.op == "bin":
        op, l, r = t.a[0], t.a[1], t.a[2]
    elif t.op == "call" and last(t.a[0]) in ("lt", "le", "gt", "ge", "eq", "ne") and len(t.a) == 3:
        op, l, r = last(t.a[0]).capitalize(), t.a[1], t.a[2]
    else:
        return None
    if r.op == "adt" and last(r.a[0]) == "Ordering" and l.op == "call" and last(l.a[0]) in cmps:
        s = side(l.a[1], l.a[2])
        return None if s is None else (names[s] == r.a[1]) == (op == "Eq")
    s = side(l, r)
    if s is None:
        return None
    return {"Lt": s == "<", "Le": s in "<=", "Gt": s == ">", "Ge": s in ">=", "Eq": s == "=", "Ne": s != "="}.get(op)


def path_kind(E, p, names):
    """`source` or `object`: which of the two files of a module p names"""
    p = drop(p)
    while p.op == "dfld" and p.a[1] in ("Ok", "Some"):
        p = p.a[0]
    if p in names:
        return "source"
    if p.op in ("call", "upd") and last(p.a[0]) in ("with_extension", "set_extension"):
        args = [x for x in p.a if isinstance(x, T)]
        if args[-1] is c_str("csvpo") and path_kind(E, args[0], names) in ("source", "object"):
            return "object"
    return None


def modified(E, t, names):
    """the kind of file whose time of modification t is"""
    t = ok_of(drop(t))
    if not call_of(t, "modified"):
        return None
    m = ok_of(drop(t.a[1]))
    if not call_of(m, "metadata"):
        return None
    return path_kind(E, m.a[1], names)


def objects(t):
    return {dfld(x, "Ok") for x in subterms(t) if call_of(x, "deserialize_from") or call_of(x, "deserialize")}


def usable(ctx, E, t, what, name, kind, pins):
    """t: where a module comes from; name: its file's name"""
    Ds = objects(t)
    ctx.count("object files read", len(Ds))
    if not Ds:
        return
    hits = lambda d: [l for l in live(d) if not (l.op == "adt" and l.a[1] == "Err") and objects(l) and not call_of(ok_of(l), FROM_SOURCE)]
    from_source = [l for l in live(t) if call_of(ok_of(l), FROM_SOURCE)]
    ctx.ob("%s: source" % what, bool(from_source) and all(ok_of(l).a[2] is name for l in from_source), "the %s is read from %s" % (what, [show(ok_of(l).a[2], 3)[:60] for l in from_source][:2]))
    for D in Ds:
        fn = E.field(E.field(D, "source_code"), "filename")
        names = {name, fn}
        rd = ok_of(drop(D.a[0].a[1]))
        ctx.ob("%s: its object file" % what, (call_of(rd, "open") or call_of(rd, "read")) and path_kind(E, rd.a[1], {name}) == "object", "the object file of the %s is %s" % (what, show(rd, 4)[:100]))
        rules = dict(pins)
        rules["another source file"] = lambda a: order(a, lambda x: x is fn, lambda x: x is name, ">")
        mod = lambda k: lambda x: modified(E, x, names) == k
        rules["a newer source file"] = lambda a: order(a, mod("source"), mod("object"), ">")
        ver = lambda x: any(y is E.field(D, "compiler_version") for y in subterms(x))
        this = lambda x: any(call_of(y, "parse") for y in subterms(x)) and not ver(x)
        rules["an older compiler"] = lambda a: order(a, this, ver, ">")
        rules["a version that means nothing"] = lambda a: "Err" if a.op == "a.disc" and call_of(a.a[0], "parse") and ver(a.a[0]) else None
        evaluated = E.field(D, "needs_eval")
        wrong = kind != "main"
        rules["an object file of %s" % ("a main module" if wrong else "a dependency")] = lambda a: (not wrong) if a.op == "a.val" and a.a[0] is evaluated else None
        for r, choose in rules.items():
            left = hits(assume(t, choose))
            ctx.ob("%s: %s" % (what, r), not left, "an object file is used for the %s despite %s" % (what, r))
        for l in hits(t):
            v = assume(E.field(l, "needs_eval"), lambda a: (not wrong if False else wrong) if a.op == "a.val" and a.a[0] is evaluated else None)
            v = drop(subst(v, {evaluated: c_bool(wrong)}))
            ctx.ob("%s: not evaluated again" % what, v is FALSE, "a cached %s is evaluated again" % what)
            sc = E.field(l, "scope")
            for x in ("scope", "spreadsheet", "required_modules", "source_code", "module_path"):
                ctx.ob("%s: %s" % (what, x), E.field(l, x) is E.field(D, x), "the %s of a cached %s changes" % (x, what))


def main_module(ctx):
    f = ctx.fn("compile", self_has="Compiler")
    op = (FROM_SOURCE, "load_main", "write_object_file", "eval_fills", "eval_spreadsheet")
    E = ctx.engine(opaque=lambda g: g.name in op and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["compiler"])
    c = sym("compiler", f.locals[1])
    conf = E.field(c, "config")
    cache, kv = E.field(conf, "use_cache"), E.field(conf, "key_values")
    loads = [e for e in E.events if last(e.path).startswith("load_main")]
    if not ctx.ob("main: its dependencies", len(loads) == 1, "dependencies are loaded at %d places" % len(loads)):
        return
    no_cache = lambda a: False if a.op == "a.val" and a.a[0] is cache else None

    def some_kv(a):
        t = a.a[0] if a.op == "a.val" else None
        if t is not None and t.op == "call" and last(t.a[0]) == "len" and t.a[1] is kv:
            return ("not", (0,))
        if t is not None and t.op == "call" and last(t.a[0]) == "is_empty" and t.a[1] is kv:
            return False
    usable(ctx, E, loads[0].args[0], "main module", E.field(c, "input_filename"), "main", {"--no-cache": no_cache, "key/values": some_kv})
    use = loads[0].args[2]
    ctx.ob("dependencies: --no-cache", drop(use) is cache or drop(assume(subst(use, {cache: FALSE}), no_cache)) is FALSE, "--no-cache does not reach the dependencies: %s" % show(use, 3)[:60])
    w = [e for e in E.events if last(e.path) == "write_object_file"]
    for e in w:
        for what, p in (("--no-cache", no_cache), ("key/values", some_kv)):
            ctx.ob("main: not written with " + what, not satisfiable(assume(e.guard, p)), "an object file is written despite %s" % what)
        ctx.ob("main: written as evaluated", drop(E.field(e.args[0], "needs_eval")) is FALSE, "the object file of a main module is written as %s" % show(E.field(e.args[0], "needs_eval"), 3)[:80])
        ev = [x for x in subterms(e.args[0]) if call_of(x, "eval_spreadsheet")]
        ctx.ob("main: written once evaluated", bool(ev), "an object file is written of a module which is not evaluated")
    ctx.count("object files written", len(w))
    # the same with what is loaded unknown
    E = ctx.engine(opaque=lambda g: g.name in op + ("load_from_cache_from_filename",) and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["compiler"])
    loads = [e for e in E.events if last(e.path).startswith("load_main")]
    need = E.field(dfld(loads[0].ret, "Ok"), "needs_eval")
    for e in [e for e in E.events if last(e.path) == "write_object_file"]:
        rest = left_over(e.guard, cache, kv)
        ctx.ob("main: written always", not rest, "whether an object file is written of a program which has been compiled depends on %s" % [show(a, 3)[:70] for a in rest][:2])
    # a cached module is handed on as it is, one from the source is evaluated
    for v in (True, False):
        t = assume(r, lambda a: v if a.op == "a.val" and a.a[0] is need else {"Result": "Ok", "Option": "Some"}.get(last(a.a[1])) if a.op == "a.disc" else None)
        good = [x for l in live(t) if l.op == "adt" and l.a[1] == "Ok" for x in live(l.a[2])]
        ev = [any(call_of(x, "eval_spreadsheet") for x in subterms(l)) for l in good]
        fills = [any(call_of(x, "eval_fills") for x in subterms(l)) for l in good]
        ctx.ob("main: %s" % ("evaluated" if v else "not evaluated twice"), bool(good) and all(x == v for x in ev + fills), "a main module %s" % ("is not evaluated" if v else "from an object file is evaluated again"))


def dependency(ctx):
    f = ctx.fn("load_module", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g.name in (FROM_SOURCE, "load", "filename_relative_to") and g.key.startswith("csvpp"))
    ctx.run(E, f, ["loader", "path", "relative"])
    loader, path, rel = [sym(n, f.locals[i + 1]) for i, n in enumerate(("loader", "path", "relative"))]
    ins = [e for e in E.events if last(e.path) == "insert" and any(x is E.field(loader, "loaded") for x in subterms(e.args[0]))]
    if not ctx.ob("dependency: kept", len(ins) == 1, "loaded modules are kept at %d places" % len(ins)):
        return
    e = ins[0]
    joins = {x for x in subterms(e.args[2]) if call_of(x, "join") and any(call_of(y, "filename_relative_to") for y in subterms(x))}
    if not ctx.ob("dependency: file", len(joins) == 1, "a dependency is looked for at %d places" % len(joins)):
        return
    name = next(iter(joins))
    cache = E.field(loader, "use_cache")
    usable(ctx, E, e.args[2], "dependency", name, "dependency", {"--no-cache": lambda a: False if a.op == "a.val" and a.a[0] is cache else None})


def outdated(ctx, f):
    """An object file is out of date once the source of a dependency has been changed after it was written."""
    E = ctx.engine()
    r = ctx.run(E, f, ["module", "dependency"])
    m, d = [sym(n, f.locals[i + 1]) for i, n in enumerate(("module", "dependency"))]
    name = lambda x: {E.field(E.field(x, "source_code"), "filename")}
    good = lambda o: live(assume(r, lambda a: order(a, lambda x: modified(E, x, name(d)) == "source", lambda x: modified(E, x, name(m)) == "object", o)))
    oks = [l for l in good(">") if not (l.op == "adt" and l.a[1] == "Err")]
    ctx.ob("outdated", bool(oks) and all(l.op == "adt" and l.a[2] is TRUE for l in oks), "an object file older than the source of a dependency is up to date: %s" % [show(l, 3)[:60] for l in oks][:2])


def dirty(ctx):
    """All modules from object files which (indirectly) require a module that has changed are found."""
    f = ctx.fn("dirty_nodes", self_has="ModuleLoader")
    out = ctx.fn("is_outdated_by")
    outdated(ctx, out)
    E = ctx.engine(opaque=lambda g: g is out or g.name == "load_dependency_graph" and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["loader"])
    loader = sym("loader", f.locals[1])
    cs = [e for e in E.events if last(e.path) == out.name]
    ins = [e for e in E.events if last(e.path) == "insert"]
    g = [e.ret for e in E.events if last(e.path) == "load_dependency_graph"]
    if not ctx.ob("dependents: looked for", len(cs) == 1 and len(ins) == 1 and len(set(g)) == 1, "dependents of a changed module are looked for at %d, kept at %d places" % (len(cs), len(ins))):
        return
    c, i, g = cs[0], ins[0], g[0]
    # the outer node, and those it requires
    node = [x for x in subterms(i.args[1]) if x.op == "elem" and any(call_of(y, "node_indices") and y.a[1] is g for y in subterms(x))]
    ok = i.args[1].op in ("idx", "call") and bool(node)
    ctx.ob("dependents: kept", ok, "what is kept is %s" % show(i.args[1], 3)[:80])
    dfs = [x for x in subterms(c.args[1]) if x.op == "rec" and x.id in E.rec_info and call_of(E.rec_info[x.id][0], "new") and "Dfs" in E.rec_info[x.id][0].a[0]]
    ok = bool(dfs) and bool(node) and all(E.rec_info[x.id][0].a[1] is g and E.rec_info[x.id][0].a[2] is node[0] for x in dfs)
    ctx.ob("dependents: all they require", ok, "the modules which a module requires are %s" % show(c.args[1], 4)[:100])
    loaded = lambda t: any(x is E.field(loader, "loaded") for x in subterms(t))
    ctx.ob("dependents: of loaded modules", loaded(c.args[1]), "what may have changed is %s" % show(c.args[1], 3)[:80])
    mods = live(c.args[0])
    ctx.ob("dependents: main module", any(x is E.field(loader, "main_module") for l in mods for x in subterms(l)), "the main module is not looked at")
    ctx.ob("dependents: dependencies", any(loaded(x) and node and node[0] in subterms(x) for a in subterms(c.args[0]) for x in [a] if call_of(x, "get")), "the dependencies are not looked at")
    # whenever the module is not from its source, it is kept exactly if it is out of date

    def facts(evaluated, old):
        def f(a):
            t = a.a[0]
            if a.op == "a.disc":
                if t is c.ret:
                    return "Ok"
                return {"Option": "Some", "Result": "Ok"}.get(last(a.a[1]))
            if t.op in ("fld", "dfld") and t.a[-1] == "needs_eval" or t.op == "fld" and "needs_eval" in t.a:
                return evaluated
            if t is dfld(c.ret, "Ok"):
                return old
        return f
    kept = lambda *a: [l for l in leaves(assume(i.guard, facts(*a))) if l is not DEAD]
    ctx.ob("dependents: out of date", kept(False, True) == [TRUE], "some modules which are out of date are not reloaded: %s" % show(assume(i.guard, facts(False, True)), 3)[:100])
    asked = [l for l in leaves(assume(c.guard, facts(False, None))) if l is not DEAD]
    ctx.ob("dependents: each asked", asked == [TRUE], "some modules are not asked: %s" % show(assume(c.guard, facts(False, None)), 3)[:100])
    for l in c.loops:
        if l in E.latch:
            more = runs_on(E, l)
            if l == c.loops[-1]:
                # once the module is known to be out of date nothing more has to be asked about it
                more = assume(more, facts(False, False))
            ctx.ob("dependents: all of them", live(more) == [TRUE], "the search for dependents ends early")
    oks = [l for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    ctx.ob("dependents: result", bool(oks) and all(reaches(E, l.a[2], i) for l in oks), "the result is %s" % [show(l, 3)[:80] for l in oks][:2])


def runs_on(E, lid):
    """when another iteration of loop lid follows, unless there is an error"""
    def f(a):
        if a.op != "a.disc":
            return None
        t = a.a[0]
        if t.op == "next" or call_of(t, "next"):
            q = t.a[0] if t.op == "next" else t.a[1]
            return "Some" if q.op == "rec" and tuple(q.a[:len(lid)]) == tuple(lid) else "None"
        return "Ok" if last(a.a[1]) == "Result" else None
    return assume(E.latch[lid], f)


def reaches(E, t, e):
    """Is t a value that event e may have changed?"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == "upd" and last(y.a[0]) == last(e.path) and any(z is e.args[1] for z in y.a if isinstance(z, T)):
                return True
            if y.op == "rec" and y.id in E.rec_info:
                todo += [E.rec_info[y.id][0], E.rec_info[y.id][1]]
    return False


def fixed(E, t, facts):
    """t with the (term, variant or value) facts applied, whole loops over, results Ok"""
    def f(a):
        x = a.a[0]
        for k, v in facts:
            if x is k:
                return v
    return assume(t, f)


def spread(ctx):
    """Everything that was found out of date is marked, wherever it is kept."""
    f = ctx.fn("propagate_dirty_flag", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g.name == "dirty_nodes" and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["loader"])
    d = [e.ret for e in E.events if last(e.path) == "dirty_nodes"]
    if not d:
        raise Missing("the modules out of date")
    D = dfld(d[0], "Ok")
    oks = [l.a[2] for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    if not oks:
        raise Missing("the loader with its modules marked")
    for R in oks:
        def some_dirty(a):
            t = a.a[0]
            if a.op == "a.val" and t.op == "call" and last(t.a[0]) in ("len", "is_empty") and t.a[1] is D:
                return ("not", (0,)) if last(t.a[0]) == "len" else False
        v = live(assume(E.field(R, "is_dirty"), some_dirty))
        ctx.ob("marked: reload asked for", v == [TRUE], "nothing is reloaded although modules are out of date: %s" % show(E.field(R, "is_dirty"), 3)[:80])
        m = E.field(R, "main_module")
        ok = m.op == "rec" and m.id in E.rec_info
        if ok:
            st = E.rec_info[m.id][1]
            here = lambda a: True if a.op == "a.val" and a.a[0].op == "bin" and a.a[0].a[0] == "Eq" and any(x.op == "elem" and x.a[0] is D for x in subterms(a.a[0])) else "Some" if a.op == "a.disc" and a.a[0].op == "next" else None
            v = live(E.field(drop(assume(st, here)), "is_dirty"))
            ok = v == [TRUE]
        ctx.ob("marked: main module", ok, "the main module is not marked: %s" % show(m, 2)[:80])
    gets = [e for e in E.events if last(e.path) in ("get_mut", "entry")]
    ok = len(gets) >= 1 and all(e.args[1].op == "elem" and e.args[1].a[0] is D for e in gets)
    marks = []
    for i, v in E.rec_info.items():
        st = v[1]
        for x in subterms(st):
            if x.op == "call" or x.op == "rec":
                continue
        init = v[0]
        if any(call_of(init, "get_mut") for _ in [0]):
            rec = next((y for y in subterms(st) if y.op == "rec" and y.id == i), None)
            got = [l for l in live(st)]
            marks.append(any(set_true(E, l, "is_dirty") for l in got))
    ctx.ob("marked: dependencies", ok and any(marks), "the dependencies are not marked")
    for e in gets:
        g = assume(e.guard, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else "Ok" if a.op == "a.disc" and last(a.a[1]) == "Result" else None)
        ctx.ob("marked: each dependency", live(g) == [TRUE] or [l for l in leaves(g) if l is not DEAD] == [TRUE], "some dependencies are not marked: %s" % show(g, 3)[:80])
        for l in e.loops:
            if l in E.latch:
                ctx.ob("marked: all of them", live(runs_on(E, l)) == [TRUE], "not all modules are marked")


def set_true(E, t, name):
    v = E.field(dfld(t, "Some"), name) if t.op != "adt" else None
    try:
        v = E.field(E.dfld(t, "Some"), name)
    except AttributeError:
        pass
    return v is TRUE or any(x.op not in ("rec", "call", "c") and TRUE in x.a and any(name == y or isinstance(y, tuple) and name in y for y in x.a) for x in subterms(t))


def reloaded(ctx):
    """Whatever is marked is read again from its own source file, and replaces what was there."""
    f = ctx.fn("reload_dirty_modules", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g.name == FROM_SOURCE and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["loader"])
    loader = sym("loader", f.locals[1])
    loads = [e for e in E.events if last(e.path) == FROM_SOURCE]
    if not ctx.ob("reload: from source", bool(loads), "nothing is reloaded"):
        return
    main = E.field(loader, "main_module")
    found = set()
    for e in loads:
        for p, fn in zip(*[alternatives(x) for x in e.args[:2]]):
            own = fn is E.field(E.field(owner(p), "source_code"), "filename") if owner(p) is not None else key_and_value(E, p, fn)
            ctx.ob("reload: its own file", own, "a module is reloaded from %s" % show(fn, 4)[:80])
        for x in subterms(e.args[1]):
            if x is main or x.op == "rec" and x.id in E.rec_info and (E.rec_info[x.id][0] is loader):
                found.add("main module")
            if call_of(x, "values_mut") or call_of(x, "iter_mut") or x.op == "elem" or x.op == "rec" and x.id in E.rec_info and any(y.op == "elem" for y in subterms(E.rec_info[x.id][0])):
                found.add("dependencies")
        g = assume(e.guard, lambda a: True if a.op == "a.val" and a.a[0].op in ("fld", "dfld") and a.a[0].a[-1] in ("is_dirty", ("is_dirty",)) or a.op == "a.val" and "is_dirty" in show(a.a[0], 9)[-9:] else within(e, a))
        other = [a for a in atoms_of(g) if a.op != "a.disc" and not any(x.op == "chain" for x in (a, a.a[0])) and not any(a.a[0] is h for x in e.args for h in atoms_heads(x))]
        ctx.ob("reload: all that are marked", satisfiable(g) and not other, "some modules that are out of date are not reloaded: %s" % show(g, 3)[:100])
        new = dfld(e.ret, "Ok")
        kept = any(x is new for v in E.state.values() if isinstance(v, T) for x in subterms(v)) or any(any(x is new for x in subterms(v[1])) for v in E.rec_info.values()) or any(any(x is new for a in i.args for x in subterms(a)) for i in E.events if last(i.path) == "insert")
        ctx.ob("reload: replaced", kept, "what is reloaded is dropped")
        for l in e.loops:
            if l in E.latch:
                t = assume(runs_on(E, l), lambda a: None)
                ctx.ob("reload: all of them", FALSE not in live(t), "not all modules are reloaded")
    ctx.ob("reload: main module", "main module" in found, "the main module is not reloaded")
    ctx.ob("reload: dependencies", "dependencies" in found, "the dependencies are not reloaded")


def within(e, a):
    """the loops around event e go on, those before it are over; nothing fails"""
    if a.op == "a.disc" and (a.a[0].op == "next" or call_of(a.a[0], "next")):
        q = a.a[0].a[0] if a.a[0].op == "next" else a.a[0].a[1]
        return "Some" if q.op == "rec" and any(tuple(q.a[:len(l)]) == tuple(l) for l in e.loops) else "None"
    return "Ok" if a.op == "a.disc" and last(a.a[1]) == "Result" else None


def atoms_heads(t):
    return {a.a[0] for a in atoms_of(t)}


def alternatives(t):
    return [l for l in leaves(t) if l not in (DEAD, CONT)]


def owner(p):
    if p.op in ("fld", "dfld") and p.a[-1] == "module_path" or p.op == "fld" and "module_path" in p.a:
        return p.a[0]
    return None


def key_and_value(E, p, fn):
    """entries of a map: the key and the source file of the same entry"""
    ps = [x for x in subterms(p) if x.op == "elem"]
    return bool(ps) and any(x in set(subterms(fn)) for x in ps)


def until_clean(ctx):
    """Loading goes on until nothing is out of date, and only then is anything evaluated."""
    f = ctx.fn("load_main", self_has="ModuleLoader")
    op = ("load", "propagate_dirty_flag", "reload_dirty_modules", "eval_dependencies", "merge_direct_dependencies", "has_failures")
    E = ctx.engine(opaque=lambda g: g.name in op and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["main", "root", "cache"][:f.nargs])
    by = lambda n: [e for e in E.events if last(e.path) == n]
    props, loads, rel = by("propagate_dirty_flag"), by("load"), by("reload_dirty_modules")
    if not ctx.ob("loop: shape", len(props) == 1 and rel and loads, "modules out of date are looked for at %d places" % len(props)):
        return
    p = props[0]
    dirty_ = E.field(dfld(p.ret, "Ok"), "is_dirty")
    pin = lambda t, v: assume(t, lambda a: v if a.op == "a.val" and a.a[0] is dirty_ else "Ok" if a.op == "a.disc" and last(a.a[1]) == "Result" else None)
    for n in ("eval_dependencies", "merge_direct_dependencies"):
        for e in by(n):
            ctx.ob("loop: %s once clean" % n, not satisfiable(pin(e.guard, True)), "modules are used although they are out of date (%s)" % n)
    ctx.ob("loop: reloaded", [l for l in leaves(pin(rel[0].guard, True)) if l is not DEAD] == [TRUE], "modules out of date are not reloaded")
    again = [l for l in p.loops if l in E.latch]
    ctx.ob("loop: looked for again", bool(again) and all(live(pin(E.latch[l], True)) == [TRUE] for l in again), "what else is out of date is not looked for")
    root, cache = sym("root", f.locals[2]), sym("cache", f.locals[3])
    first = [E.rec_info[x.id][0] for x in subterms(loads[0].args[0]) if x.op == "rec" and x.id in E.rec_info] or [loads[0].args[0]]
    ok = first[0].op == "adt" and E.field(first[0], "use_cache") is cache
    ctx.ob("loop: --no-cache", ok, "the loader is set to %s" % show(E.field(first[0], "use_cache") if first[0].op == "adt" else first[0], 3)[:60])


def left_over(guard, cache, kv):
    """What else decides whether an object file is written, once caching is on, the module was evaluated and nothing failed."""
    def facts(a):
        t = a.a[0]
        if a.op == "a.disc":
            if a.a[1].endswith("::Result"):
                return "Ok"
            if a.a[1].endswith("::Option") and t.op != "next":
                return "Some"
        elif a.op == "a.val":
            if t is cache or t.op == "fld" and t.a[1] == "needs_eval":
                return True
            if kv is not None and t.op == "call" and t.a[1:2] == (kv,):
                return {"len": 0, "is_empty": True}.get(last(t.a[0]))
        return None
    g = assume(guard, facts)
    if not satisfiable(g):
        return [g]
    return [a for a in atoms_of(g) if not (a.op == "a.disc" and a.a[0].op == "next")]


def written(ctx):
    """The object file of a dependency is written once it is evaluated, and says that its spreadsheet is not."""
    f = ctx.fn("eval_dependencies", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g.name in ("eval", "eval_error", "load_dependency_graph", "write_object_file", "merge") and g.key.startswith("csvpp"))
    ctx.run(E, f, ["loader"])
    loader = sym("loader", f.locals[1])
    cache = E.field(loader, "use_cache")
    evals = [e for e in E.events if last(e.path) == "eval"]
    for e in [e for e in E.events if last(e.path) == "write_object_file"]:
        no = assume(e.guard, lambda a: False if a.op == "a.val" and a.a[0] is cache else None)
        ctx.ob("written: --no-cache", not satisfiable(no), "object files of dependencies are written despite --no-cache")
        rest = left_over(e.guard, cache, None)
        ctx.ob("written: always", not rest, "whether an object file is written of a module which has been evaluated depends on %s" % [show(a, 3)[:70] for a in rest][:2])
        ctx.ob("written: once evaluated", bool(evals) and all(x.seq < e.seq for x in evals), "an object file is written before its module is evaluated")
        v = E.field(dfld(e.args[0], "Some") if not e.args[0].op == "dfld" else e.args[0], "needs_eval")
        ctx.ob("written: as a dependency", FALSE not in leaves(v) and not any(x is FALSE for x in subterms(v) if x.op == "c"), "the object file of a dependency says %s" % show(v, 4)[:80])
    w = ctx.fn("write_object_file")
    E = ctx.engine()
    r = ctx.run(E, w, ["module"])
    m = sym("module", w.locals[1])
    ser = [e for e in E.events if last(e.path) in ("serialize", "serialize_into")]
    files = [e for e in E.events if last(e.path) == "write" and "fs" in e.path]
    ok = len(ser) == 1 and any(drop(a) is m for a in ser[0].args)
    ctx.ob("written: the module", ok, "what is written is %s" % [show(a, 3)[:60] for e in ser for a in e.args][:2])
    name = {E.field(E.field(m, "source_code"), "filename")}
    ok = len(files) == 1 and path_kind(E, files[0].args[0], name) == "object" and ok and ok_of(drop(files[0].args[1])) is ser[0].ret
    ctx.ob("written: to its object file", ok, "it is written to %s" % [show(a, 3)[:60] for e in files for a in e.args][:2])
    v = ctx.fn(FROM_SOURCE)
    E = ctx.engine(opaque=lambda g: g.name in ("parse", "try_from") and g.key.startswith(("csvpp", "<csvpp")))
    r = ctx.run(E, v, ["path", "file"])
    oks = [l.a[2] for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    for l in oks:
        cv = E.field(l, "compiler_version")
        vs = VERSIONS(ctx)
        ctx.ob("written: version", cv.op == "c" and cv in vs, "the recorded version is %s" % show(cv, 3)[:60])
        ctx.ob("from source: to be evaluated", E.field(l, "needs_eval") is TRUE, "a module read from its source is not evaluated")
    ctx.ob("from source", bool(oks), "no module is read from its source")


def VERSIONS(ctx):
    """the versions which object files are compared with"""
    f = ctx.fn("check_if_is_dirty")
    E = ctx.engine()
    ctx.run(E, f, ["m"])
    return {e.args[0] for e in E.events if last(e.path) == "parse" and e.args[0].op == "c"}


def contents(ctx):
    """No part of a module is left out of its object file."""
    import re
    from sa import facts
    n = 0
    for p in facts.source_files():
        if not p.endswith(".rs"):
            continue
        src = open(p, encoding="utf-8").read()
        src = re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S)
        for m in re.finditer(r"#\s*\[\s*(?:cfg_attr\s*\([^\]]*?)?serde\s*\(([^\]]*)\)\s*\]", src):
            n += 1
            bad = re.search(r"\b(skip\w*|with|serialize_with|deserialize_with|getter|from|into|try_from|default|remote)\b", m.group(1))
            ctx.ob("contents: attributes", not bad, "part of a module is left out of its object file: serde(%s) in %s" % (m.group(1).strip()[:40], p))
        for m in re.finditer(r"\bimpl\b[^{;]*\b(Serialize|Deserialize)\b(?:<[^>]*>)?\s+for\s+([\w:]+)", src):
            ctx.ob("contents: by hand", False, "the object file's form of %s is written by hand in %s" % (m.group(2), p))
    ctx.ob("contents", True)
    ctx.count("serde attributes", n)


def check(ctx):
    main_module(ctx)
    dependency(ctx)
    dirty(ctx)
    spread(ctx)
    reloaded(ctx)
    until_clean(ctx)
    written(ctx)
    contents(ctx)
