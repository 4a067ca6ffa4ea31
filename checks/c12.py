"""C12: loading in parallel neither blocks nor races, and comes to an end."""
from sa.q import *
from sa.terms import *
from sa.check import Missing
from sa import locks
from checks.c20 import last
from checks.c10 import live
from checks import c10, c11

TITLE = "Loading modules in parallel neither deadlocks nor races, and ends"
RULE = ("On the MIR of every function: which lock guards (and borrows of cells) may be live at each call, against what the call may acquire, through all functions and closures it reaches; the order of "
        "different locks; threads and their joins; changes under a lock decided by what was seen under another acquisition of it; locks taken apart while shared. And with the loader's value flow: "
        "every module is reserved before its thread starts, and the search for changed modules gets smaller each time.")


def line(f, bi):
    t = f.blocks[bi][1]
    return "%s (in %s)" % (t[-1], f.key)


def check(ctx):
    F = ctx.F
    L = locks.Locks(F)
    for f in L.fns.values():
        ctx.analysed.add(f.key)
    n = sum(len(v) for v in L.direct.values())
    real = [(k, bi, a) for k, v in L.direct.items() for bi, a in v if not a.cell]
    ctx.floor("acquisitions", n, 6)
    for k, v in L.direct.items():
        for bi, a in v:
            ctx.ob("taken:%s:%d" % (k, bi), True)
    bad, edges, calls = L.conflicts()
    ctx.floor("calls which may acquire a lock", calls, 20)
    ctx.counts["functions"] = len(L.fns)
    for f, bi, h, g in bad:
        ctx.ob("twice:%s:%s" % (f.key, g.name or g.ty), False, "%s is taken while it is still held by the same thread" % g, line(f, bi))
    ctx.ob("no lock is taken twice", not bad, "")
    # lock order
    g = {}
    for (a, b), w in edges.items():
        g.setdefault(a, set()).add(b)
    for a in list(g):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in g.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if a in seen:
            w = next(w for (x, y), w in edges.items() if x == a)
            ctx.ob("order:%s" % (a[1] or a[0]), False, "locks are taken in different orders (%s first)" % (a[1] or a[0]), line(*w))
    ctx.ob("one order of locks", True)
    threads(ctx, L)
    apart(ctx, L)
    ends(ctx)
    c11.loading(ctx)


def threads(ctx, L):
    inside = L.reachable(L.spawned_keys)
    n = 0
    for f in L.fns.values():
        for bi, b in enumerate(f.blocks):
            t = b[1]
            if t[0] != "call" or not L.is_spawn(t):
                continue
            n += 1
            ty = t[5] if isinstance(t[5], str) else f.locals[locks.local_of(t[3])]
            p = L.path_of(t)
            scoped = "Scope" in p or "scoped" in p
            joined = False
            if not scoped:
                fam = [g for g in L.fns.values() if g.key.split("::{closure")[0] == f.key.split("::{closure")[0]]
                joined = "JoinHandle" in ty and any(L.is_join(x[1]) for g in fam for x in g.blocks if x[1][0] == "call")
            ctx.ob("thread:%s" % f.key, scoped or joined, "a thread is started which nothing waits for", line(f, bi))
    ctx.counts["threads started"] = n
    for k in sorted(inside):
        f = L.fns[k]
        for bi, a in L.direct[k]:
            ctx.ob("thread:%s takes %s" % (k, a.name or a.ty), a.cell or not a.mode.startswith("try"), "%s is only tried while other threads may hold it" % a, line(f, bi))
        if any(not a.cell for a in L.acq[k].values()):
            out, acts = L.stale(f)
            out = [o for o in out if not o[2].cell]
            for g, bi, w, s in out:
                ctx.ob("race:%s:%s" % (k, w.name or w.ty), False, "what is changed under %s was decided by what was seen before it was taken again: another thread may have come between" % w, line(g, bi))
            ctx.ob("decisions:%s" % k, not out, "")
    # try_* outside of threads is safe as long as no thread runs: scoped threads have ended


def inner(ty):
    """Arc<X> -> X for locks"""
    i = ty.find("Arc<")
    return ty[i + 4:] if i >= 0 and "Lock<" in ty[i:] or i >= 0 and "Mutex<" in ty[i:] else None


def apart(ctx, L):
    """a lock which is taken apart must have one owner"""
    un, cl = [], []
    for f in L.fns.values():
        for bi, b in enumerate(f.blocks):
            t = b[1]
            if t[0] != "call":
                continue
            n = last(L.path_of(t))
            ty = t[2][0][1] if t[2] else ""
            if n in ("try_unwrap", "into_inner", "unwrap_or_clone", "get_mut") and ty.replace("&mut ", "").startswith("alloc::rcs::arc::Arc<") and inner(ty):
                un.append((f, bi, inner(ty)))
            if n == "clone" and inner(ty) and ty.lstrip("&").startswith("alloc::rcs::arc::Arc<"):
                cl.append((f, bi, inner(ty)))
    for f, bi, ty in un:
        others = [c for c in cl if c[2].rstrip(">") == ty.rstrip(">")]
        ctx.ob("taken apart:%s" % f.key, not others, "the lock is taken apart although it is shared: %s" % [line(c[0], c[1]) for c in others][:2], line(f, bi))
    ctx.counts["locks taken apart"] = len(un)


def ends(ctx):
    """the loop which reloads what is out of date: whatever came from its source is not out of date"""
    f = ctx.fn("dirty_nodes", self_has="ModuleLoader")
    out = ctx.fn("is_outdated_by")
    E = ctx.engine(opaque=lambda g: g is out or g.name == "load_dependency_graph" and g.key.startswith("csvpp"))
    ctx.run(E, f, ["loader"])
    ins = [e for e in E.events if last(e.path) == "insert"]

    def fresh(a):
        t = a.a[0]
        if a.op == "a.val" and t.op in ("fld", "dfld") and t.a[-1] == "needs_eval":
            return True
    for e in ins:
        ctx.ob("ends: what comes from its source is up to date", not satisfiable(assume(e.guard, fresh)), "a module that has just been loaded from its source is reloaded again", where(e))
    ctx.ob("ends: changed modules", bool(ins), "no changed modules are found")
    f = ctx.fn("propagate_dirty_flag", self_has="ModuleLoader")
    E = ctx.engine(opaque=lambda g: g.name == "dirty_nodes" and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["loader"])
    dn = [e.ret for e in E.events if last(e.path) == "dirty_nodes"]
    ls = [l for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
    if ctx.ob("ends: asked", len(dn) == 1 and bool(ls), "changed modules are looked for %d times" % len(dn)):
        none = dfld(dn[0], "Ok")

        def nothing(a):
            t = a.a[0]
            if any(x is none for x in subterms(t)):
                if a.op == "a.val" and t.op == "call" and t.a[0] == "len":
                    return 0
                if a.op == "a.val" and t.op == "bin" and t.a[0] == "Eq" and c_int(0) in t.a:
                    return True
        for l in ls:
            v = drop(assume(E.field(l.a[2], "is_dirty"), nothing))
            ctx.ob("ends: when nothing is out of date", truth(v) is FALSE, "loading goes on although nothing is out of date: %s" % show(v, 3)[:80])
    for n in ("load_from_source_from_filename",):
        f = ctx.fn(n, self_has="module::Module")
        E = ctx.engine(opaque=lambda g: g.name in ("parse", "try_from", "canonicalize") and g.key.startswith("csvpp"))
        r = ctx.run(E, f, ["path", "file"][:f.nargs])
        oks = [l for l in live(r) if l.op == "adt" and l.a[1] == "Ok"]
        ctx.ob("ends: read from its source", bool(oks) and all(E.field(l.a[2], "needs_eval") is TRUE for l in oks), "a module read from its source does not count as such")


from checks.c21 import drop
