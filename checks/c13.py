"""C13: a step that fails is never silently skipped; it ends in a message and a failing exit status."""
import re

from sa.terms import *
from sa.q import *
from checks.c11 import base

TITLE = "Every failure is reported: no error of any step is swallowed"
RULE = ("Error-flow analysis of every function of the crate, one at a time: for each call that can return an error (library calls, awaited "
        "requests, calls of other functions), the function's result is evaluated under the assumption that it did. The function must then not "
        "return normally with anything but an error, and no loop around the call may go on. Accepted besides that: another parse of the same "
        "input is tried and must succeed; a file that is not there; the object file cache (C10); errors that only a poisoned lock can cause. "
        "The failed modules are collected by the loader: the error must be inserted there on every failing path, a non-empty collection must "
        "become the result, and its message must contain every one. The program must print the error and exit with a failure status.")

OPT = "core::option::Option"


def own_terms(t):
    """the subterms of t except for those of an element of something else"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in out or x.op in ("elem", "pick"):
            continue
        out.add(x)
        todo += [y for y in x.a if isinstance(y, T)]
    return out


def fails(e):
    return b_and(only_true(e.guard), is_variant(e.ret, RESULT, "Err"))


def without(dd, e, err):
    """dd with every 'all of them succeeded' that contains the failing call made false"""
    for at in gates_atoms(dd):
        x = at.a[0] if at.op == "a.val" else at
        if x.op != "all":
            continue
        src, cond, body = x.a[0], x.a[1], x.a[2]
        if any(x is e.ret for x in subterms(body)) and not satisfiable(b_and(only_true(body), err)) and \
                not satisfiable(b_and(b_not(only_true(cond)), err)):
            dd = restrict(dd, at, False)
    return dd


def gates_atoms(dd):
    out, seen, st = [], set(), [dd]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "gate":
            out.append(x.a[0])
            st += [k for k in x.a[2]] + ([x.a[3]] if x.a[3] is not None else [])
    return out


def same_input(E, a, b):
    """Do two attempts read the same input?"""
    if a.path.rsplit("::", 1)[0] != b.path.rsplit("::", 1)[0] and strip_name(a.path) != strip_name(b.path):
        return False
    return any(base(E, x) is base(E, y) and base(E, x).op not in ("c", "elem", "rec") for x in a.args[:1] for y in b.args[:1])


def accepted(E, e, good, bad):
    """Why the function may go on although e failed (None: it may not)."""
    name = strip_name(e.path)
    if "parse" in name or name.startswith("maybe_take"):
        # another reading of the same input is tried; without one that succeeds there is no success
        tries = [x.ret for x in E.events if x.kind == "call" and x.rty and x.rty.startswith((RESULT, OPT)) and same_input(E, x, e)]
        way = lambda p: any(lab in ("Ok", "Some") and any(at is atom_disc(x, RESULT) or at is atom_disc(x, OPT) or any(y is x for y in subterms(at)) for x in tries) for at, lab in p)
        if len(tries) > 1 and all(way(p) for p, l in paths(good) if l is TRUE):
            return "alternative"
    # there is nothing there to read
    ok_paths = [p for p, l in paths(bad) if l is TRUE]
    if name in ("open", "metadata", "await") and ok_paths and \
            all(any(lab in ("NotFound", 404) and any(y is e.ret for y in subterms(at)) for at, lab in p) for p in ok_paths):
        return "not found"
    return None


def strip_name(path):
    return re.sub(r"::<[^:]*>$", "", path).rsplit("::", 1)[-1] if not path.endswith(">") or re.search(r"::<.*>$", path) is None else \
        path[:path.rindex("::<")].rsplit("::", 1)[-1]


def error_type(rty):
    """The last type argument of a Result."""
    s, d, cut = rty[:-1], 0, 0
    for i, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ">)]}" and s[i - 1] != "-":
            d -= 1
        elif c == "," and d == 1:
            cut = i + 1
    return s[cut:].strip()


def flows(ctx):
    fs = ctx.fns(lambda g: not g.derive and (not g.closure or (g.nargs == 2 and "async" in str(g.locals[1]))))
    n = k = 0
    places = set()
    for f in sorted(fs, key=lambda f: f.key):
        E = ctx.engine(opaque=lambda g: g.local)
        r = ctx.run(E, f, args=[mk("sym", "a%d" % i, f.locals[i + 1]) for i in range(f.nargs)])
        k += 1
        rty = f.locals[0]
        good = only_true(E.retc)
        if rty.startswith(RESULT):
            good = b_and(good, only_true(okd(r)))
        for e in E.events:
            if e.kind != "call" or not isinstance(e.ret, T) or not (e.rty or "").startswith(RESULT):
                continue
            et = error_type(e.rty)
            if et in ("!", "core::convert::Infallible"):
                continue
            if et == "core::fmt::Error" and rty.startswith(RESULT) is False:
                continue
            n += 1
            err = fails(e)
            key = "%s: %s" % (short(f), e.path[-70:])
            if not satisfiable(err):
                ctx.ob(key, True, "")
                continue
            bad = without(b_and(good, err), e, err)
            ongoing = goes_on(E, e, is_variant(e.ret, RESULT, "Err"))
            ok = not satisfiable(bad) and not ongoing
            if not ok and r is e.ret:
                ok = True
            if not ok:
                ok = panics(E, e, err) or accepted(E, e, good, bad) is not None
            if not ok:
                ok = not ongoing and (cache(E, f, r, e) or outdated(E, f, e, err)) or spawned(ctx, E, f, e) or looked_at(E, r, e, good) or kept(E, f, r, e, err, good, places)
            ctx.ob(key, ok, "an error of this call is swallowed: the function goes on or returns normally", where(e))
        n += items(ctx, E, f, r, good)
    for place in sorted(places):
        result(ctx, *place)
    ctx.floor("functions", k, 300)
    ctx.floor("fallible calls", n, 250)


FALLIBLE = re.compile(r"csv::reader::\w*(Records|Deserialize)\w*Iter|std::io::(Lines|Split|Bytes)|fs::ReadDir|walkdir::|str::Utf8Chunks")


def items(ctx, E, f, r, good):
    """Elements of an iterator which can be errors: none of them is passed over."""
    k = 0
    turns = {}
    for bi, b in enumerate(f.blocks):
        t = b[1]
        if t[0] != "call" or b[2] or t[1][0] != "k" or not isinstance(t[1][1], dict):
            continue
        m = re.match(r"<(.*) as core::iter::traits::(?:iterator|double_ended)::\w+>::(\w+)(?:::<(.*)>)?$", str(t[1][1].get("fn", "")))
        if not m or not FALLIBLE.match(m.group(1)):
            continue
        k += 1
        how = m.group(2)
        if how == "next":
            turns[bi] = m.group(1)
        elif how in ("flatten", "last", "count", "nth", "skip", "step_by"):
            ctx.ob("%s: %s" % (short(f), how), False, "elements which are errors are passed over by %s" % how, f.span)
        elif how in ("map", "filter_map", "map_while", "flat_map"):
            ctx.ob("%s: %s" % (short(f), how), "Result<" in split_type(m.group(3) or ""), "elements which are errors are passed over by %s" % how, f.span)
    if not turns:
        return k
    for lid, latch in E.latch.items():
        if lid[0] != f.key:
            continue
        for at in {x.a[0] for x in subterms(latch) if x.op == "gate" and x.a[0].op == "a.disc" and x.a[0].a[0].op == "next"}:
            it = at.a[0].a[0]
            if not (it.op == "rec" and tuple(it.a[:3]) == lid):
                continue
            src = E.strip_rec(it)[0]
            if not any(x.op == "call" and last_name(x) in ("records", "into_records", "deserialize", "into_deserialize", "lines", "split", "bytes", "read_dir")
                       and "str::" not in x.a[0] for x in own_terms(src)) or callmap(src):
                continue
            el = atom_disc(mk("elem", src), RESULT)
            lost = satisfiable(assume(only_true(latch), lambda a: "Err" if a is el else "Some" if a is at else None))
            ctx.ob("%s: elements of %s" % (short(f), show(src, 3)[:60]), not lost, "after an element which is an error the loop goes on", f.span)
            bad = any(l is TRUE and any(a is el and lab != "Ok" for a, lab in p) for p, l in paths(good))
            ctx.ob("%s: an error in %s" % (short(f), show(src, 3)[:60]), not bad, "an element which is an error ends the loop and is passed over", f.span)
    return k


def last_name(x):
    return strip_name(x.a[0]) if isinstance(x.a[0], str) else ""


def callmap(src):
    return any(x.op == "coll" for x in subterms(src))


def split_type(s):
    """the first of several type arguments"""
    d = 0
    for i, c in enumerate(s):
        d += c in "<([{"
        d -= c in ">)]}" and s[i - 1] != "-"
        if c == "," and d == 0:
            return s[:i]
    return s


def kept(E, f, r, e, err, good, places):
    """The error goes into a collection: what is collected must then become the result (checked for that collection)."""
    lost = b_and(err, good)
    found = set()
    for i in E.events:
        if strip_name(i.path) in ("insert", "push") and len(i.args) > 1:
            v = given(hoist(i.args[-1]), (atom_disc(e.ret, RESULT), "Err"))
            mine = [p for p, l in paths(v) if l is dfld(e.ret, "Err")]
            into = [x.a[1] for x in subterms(i.args[0]) if x.op == "fld" and x.a[0].op == "sym"]
            if mine and into and not satisfiable(b_and(b_and(only_true(i.guard), err), is_not(v, e))):
                lost = b_and(lost, b_not(only_true(i.guard)))
                found.add((f.self_ty or "", into[0]))
    if not found or satisfiable(lost):
        return False
    places |= found
    return True


def looked_at(E, r, e, good):
    """The results are collected, and a loop over all of them ends with the first error."""
    if e.guard is not TRUE or len(e.loops) != 1 or e.loops[0] in E.latch:
        return False
    for i in E.rec_info.values():
        q, c = i[3], i[0]
        if c.op != "coll" or c.a[1] is not e.ret or c.a[2] is not TRUE or i[1] is None or i[1].op != "upd" or i[1].a[0].split("::")[-1] != "next":
            continue
        lid = tuple(q.a[:3])
        if lid not in E.latch or any(l[0] != "iter" for l in e.loops):
            continue
        turn = lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" and a.a[0].a[0] is q else "Err" if a is atom_disc(e.ret, RESULT) else None
        if satisfiable(only_true(assume(E.latch[lid], turn))) or satisfiable(b_and(good, b_not(only_true(E.entry[lid])))):
            continue
        now = [l for l in leaves(assume(hoist(r), turn)) if l not in (DEAD, CONT)]
        if now and all(l.op == "adt" and l.a[1] == "Err" for l in now):
            return True
    return False


def is_not(v, e):
    return lift(None, lambda l: FALSE if l is dfld(e.ret, "Err") else TRUE, v)


def panics(E, e, err):
    """The error ends the program on the spot."""
    stop = FALSE
    for x in E.events:
        if x.path.startswith("core::") and x.path.split("::")[-1].split("<")[0] in ("unwrap_failed", "expect_failed", "panic_fmt", "panic", "unwrap_failed_inner", "panic_display"):
            stop = b_or(stop, only_true(x.guard))
    return not satisfiable(b_and(err, b_not(stop)))


def cache(E, f, r, e):
    """An object file which cannot be read is no object file (the module is compiled instead, C10)."""
    if not f.locals[0].startswith(OPT) or not any(x.path.startswith("bincode::deserialize") for x in E.events):
        return False
    return not satisfiable(b_and(fails(e), b_and(only_true(E.retc), only_true(isv(r, OPT, "Some")))))


def outdated(E, f, e, err):
    """An object file whose version means nothing was written by another version: the module is compiled again."""
    for x in (y for a in e.args for y in subterms(a)):
        if x.op == "fld" and x.a[1] == "compiler_version" and x.a[0] in E.state:
            dirty = only_true(E.field(E.state[x.a[0]], "is_dirty"))
            return not satisfiable(b_and(b_and(err, only_true(E.retc)), b_not(dirty)))
    return False


def spawned(ctx, E, f, e):
    """Results of the loader's threads: they are errors of locks only, which need a panicked thread, and that ends the program."""
    if not any(strip_name(x.path) == "spawn" and f.key in e.stack and e.fnkey != f.key for x in E.events):
        return False
    g = ctx.F.fns.get(e.path)
    if g is None:
        return False
    E2 = ctx.engine(opaque=lambda h: h.local)
    r2 = E2.run(g, args=[mk("sym", "a%d" % i, g.locals[i + 1]) for i in range(g.nargs)])
    from_lock = [x.ret for x in E2.events if x.kind == "call" and (x.rty or "").startswith(RESULT) and
                 ("sync::poison" in x.path or x.path == f.key)]
    bad = b_and(only_true(E2.retc), only_true(isv(r2, RESULT, "Err")))
    return all(any(lab == "Err" and any(at is atom_disc(x, RESULT) for x in from_lock) for at, lab in p) for p, l in paths(bad) if l is TRUE)


def short(f):
    s = f.key
    return s[-90:]


def result(ctx, owner, field):
    """what was collected in a field becomes the result of the loader as a whole, unless nothing was"""
    roots = [g for g in ctx.fns(lambda g: not g.closure and not g.derive and g.locals[0].startswith(RESULT) and (g.self_ty or "") == owner and g.nargs and
                                not g.locals[1].lstrip("&mut ").startswith(owner))]
    key = "collected:" + owner.split("::")[-1]
    if not ctx.ob(key, len(roots) >= 1, "no function makes a %s and returns a result" % owner):
        return
    for f in roots:
        E = ctx.engine(opaque=lambda g: g.local and any(x in g.locals[0] for x in ("Result<()", "Result<" + owner)) and g.self_ty == owner)
        r = hoist(ctx.run(E, f, args=[mk("sym", "a%d" % i, f.locals[i + 1]) for i in range(f.nargs)]))
        found = False
        for at in gates_atoms(r):
            if not any(x.op == "fld" and x.a[1] == field for x in subterms(at)) or at.op == "a.disc":
                continue
            for lab in (True, "*"):
                rr = given(r, (at, lab))
                errs = [l.a[2] for l in leaves(rr) if l.op == "adt" and l.a[1] == "Err"]
                whole = [x for x in errs if x.op == "adt" and any(y.op == "fld" and y.a[1] == field for y in subterms(x)) and
                         any(y.op == "call" and strip_name(y.a[0]) in ("into_inner", "clone", "take", "read", "write", "lock", "deref") for y in subterms(x)) or
                         x.op == "adt" and x.a[1] == "ModuleLoadErrors"]
                if whole and not any(l.op == "adt" and l.a[1] == "Ok" for l in leaves(rr)) and given(r, (at, 0)) is not rr:
                    found = True
        ctx.ob(key + " " + field, found, "%s can succeed although errors were collected in %s" % (f.name, field))
    messages(ctx)


def messages(ctx):
    """the message of an error made of several has each of them"""
    f = [g for g in ctx.fns(lambda g: g.name == "fmt" and not g.closure and not g.derive and (g.self_ty or "") == "csvpp::error::Error" and "Display" in (g.trait or ""))]
    if not ctx.ob("messages:display", len(f) == 1, "errors are not displayable"):
        return
    f = f[0]
    E = ctx.engine(opaque=lambda g: g.local)
    ctx.run(E, f, ["self", "f"])
    me = sym("self", f.locals[1])
    n = 0
    for name, _, fields in ctx.F.adts["csvpp::error::Error"]["variants"]:
        at = atom_disc(me, "csvpp::error::Error")
        for fname, ty, _ in fields:
            n += 1
            key = "message:%s.%s" % (name, fname)
            val = dfld(me, name, fname)
            said = FALSE
            parts = {}
            for e in E.events:
                if e.kind != "fmtwrite" and not e.path.startswith("core::fmt::"):
                    continue
                g = given(hoist(only_true(e.guard)), (at, name))
                for x in (y for a in e.args[1:] for y in subterms(given(a, (at, name)))):
                    if x.op != "disp":
                        continue
                    if not any(y is val for y in subterms(x)):
                        continue
                    if any(y.op == "elem" for y in subterms(x)):
                        if any(y.op == "elem" and E.isrc(y.a[0]) is val and not any(z.op in ("take", "skip", "step_by", "filter") for z in subterms(y.a[0])) for y in subterms(x)):
                            parts.setdefault(e.loops, {}).setdefault(x.a[-1], []).append(g)
                    else:
                        said = b_or(said, g)
            if ty.startswith(OPT):
                said = b_or(said, is_variant(val, OPT, "None"))
            if parts:
                for lid, ps in parts.items():
                    turn = given(hoist(only_true(E.latch.get(lid[-1], FALSE))), (at, name)) if lid else FALSE
                    whole = turn is not FALSE and all(not satisfiable(b_and(turn, b_not(f_or(gs)))) for gs in ps.values())
                    two = "HashMap" not in ty and "BTreeMap" not in ty or len(ps) >= 2
                    ctx.ob(key, whole and two, "not every entry is in the message")
                continue
            ctx.ob(key, not satisfiable(b_not(said)), "the message of this error leaves its %s out: %s" % (fname, show(said, 4)[:100]))
    ctx.floor("message parts", n, 12)


def f_or(gs):
    r = FALSE
    for g in gs:
        r = b_or(r, g)
    return r


def program(ctx):
    f = ctx.fn("main", path="csvpp::main")
    # the program's own functions; all others give their errors back (flows)
    E = ctx.engine(opaque=lambda g: g.local and g.span.split(":")[0] != f.span.split(":")[0])
    ctx.run(E, f, [])
    steps = [e for e in E.events if e.kind == "call" and (e.rty or "").startswith(RESULT) and error_type(e.rty) == "csvpp::error::Error"]
    if not ctx.ob("program:steps", len(steps) >= 1, "the program has no steps"):
        return
    exits = [e for e in E.events if e.path == "std::process::exit"]
    prints = [e for e in E.events if e.path.endswith("_eprint") or e.path.endswith("eprintln")]
    for e in steps:
        err = fails(e)
        k = strip_name(e.path)
        stop = FALSE
        for x in exits:
            if x.args[0].op == "c" and isinstance(x.args[0].a[1], int) and x.args[0].a[1] % 256 != 0:
                stop = b_or(stop, only_true(x.guard))
        ctx.ob("program:status after " + k, not satisfiable(b_and(err, b_not(stop))), "the program exits with success although this step failed", where(e))
        said = FALSE
        for x in prints:
            if any(y is dfld(e.ret, "Err") for a in x.args for l in leaves(given(hoist(a), (atom_disc(e.ret, RESULT), "Err"))) for y in subterms(l)):
                said = b_or(said, only_true(x.guard))
        ctx.ob("program:message after " + k, not satisfiable(b_and(err, b_not(said))), "the error is not printed", where(e))
        ctx.ob("program:order after " + k, all(x.seq > y.seq or not satisfiable(b_and(x.guard, y.guard)) for x in exits for y in prints), "the program exits before it prints")


def check(ctx):
    flows(ctx)
    program(ctx)
