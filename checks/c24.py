"""C24: dates and times are read as they are written."""
import re
from sa.terms import *
from sa.q import *

TITLE = "Dates and times are read as they are written"
RULE = ("Every conversion of a token to a date is evaluated: what is parsed must be the token's text, the formats tried (in order) must be exactly year-month-day with dashes and month/day/year with "
        "slashes, each with years of two (first) and four digits, and hours, minutes, seconds; the result must be the kind (date, time, both) that was parsed and the parsed value, or an error; "
        "and a date must be printed as itself.")

KINDS = {"NaiveDateTime": "DateAndTime", "NaiveDate": "Date", "NaiveTime": "Time"}
DATES = ("%Y-%m-%d", "%m/%d/%Y")
TIMES = ("%H:%M:%S", "%H:%M")


PARTS = ("rev", "take", "skip", "step_by", "filter", "take_while", "skip_while", "nth")


def last(p):
    return p.rsplit("::", 1)[-1]


def formats(E, t):
    """The formats a term stands for, in the order in which they are tried."""
    ls = [l for l in leaves(t) if l not in (DEAD, CONT)]
    if t.op == "gate" and all(isinstance(l, int) for l in t.a[1]) and all(k.op == "c" for k in t.a[2]):
        return [k.a[1] for l, k in sorted(zip(t.a[1], t.a[2]))]
    if ls and all(l.op == "c" for l in ls):
        return [l.a[1] for l in ls]
    out = []
    for x in ([t.a[0], E.isrc(t.a[0])] if t.op == "elem" else [t]):
        if x is None:
            continue
        todo = [x]
        while todo:
            y = todo.pop()
            if y.op == "rec" and y.id in E.rec_info:
                todo.append(E.rec_info[y.id][0])
            if y.op in PARTS or y.op == "call" and last(y.a[0]) in PARTS:
                out.append(None)
            if y.op == "arr":
                return out + [z.a[1] for z in y.a if isinstance(z, T) and z.op == "c"]
            todo += [z for z in y.a if isinstance(z, T)]
    return out


def in_order(E, e):
    """Are the elements of the loops around event e taken from the first to the last?"""
    for lid in e.loops:
        for a in atoms_of(E.latch[lid]) if lid in E.latch else ():
            q = a.a[0].a[0] if a.op == "a.disc" and a.a[0].op == "next" else None
            if q is not None and q.op == "rec" and q.id in E.rec_info and any(y.op in PARTS for t in E.rec_info[q.id][:1] for y in subterms(t)):
                return False
    return True


def norm(f):
    """%F, %D, %T, %R written out"""
    for k, v in (("%F", "%Y-%m-%d"), ("%D", "%m/%d/%y"), ("%T", "%H:%M:%S"), ("%R", "%H:%M")):
        f = f.replace(k, v)
    return re.sub(r"%[-_0]", "%", f)


def one(ctx, f):
    E = ctx.engine(opaque=lambda g: "parse_error" in g.name or g.name == "position")
    r = ctx.run(E, f, ["token"])
    calls = [e for e in E.events if last(e.path) == "parse_from_str" and "chrono" in e.path]
    w = "ast" if "ast_lexer" in f.key else "cell"
    if not ctx.ob("%s: parsed" % w, bool(calls), "a date token is not parsed", f.key):
        return
    tok = [s for s in subterms(r) if s.op == "sym" and s.a[0] == "token"] or [None]
    tried = {}
    for e in calls:
        kind = next((k for k in KINDS if "::%s::" % k in e.path), None)
        if not ctx.ob("%s: type" % w, kind is not None, "parsed as %s" % e.path, where(e)):
            continue
        x = e.args[0]
        ctx.ob("%s: the text of the token" % w, x.op in ("fld", "sym") or x.op == "call" and last(x.a[0]) in ("input", "trim"), "what is parsed is %s" % show(x, 4)[:120], where(e))
        fs = formats(E, e.args[1])
        if not ctx.ob("%s: formats" % w, bool(fs) and None not in fs and in_order(E, e), "cannot see the formats tried for a %s: %s" % (kind, show(e.args[1], 5)[:120]), where(e)):
            continue
        tried.setdefault(kind, []).extend(norm(y) for y in fs if norm(y) not in tried.get(kind, []))
        ctx.ob("%s: no further condition" % w, not [a for a in atoms_of(e.guard) if a.op != "a.disc" and not any(y.op == "next" or y.op == "call" and last(y.a[0]) == "parse_from_str" for y in subterms(a))],
               "whether a %s is tried depends on something else" % kind, where(e))
    for kind, fs in tried.items():
        for y in fs:
            d, _, t = y.partition(" ") if kind == "NaiveDateTime" else (y, "", "") if kind == "NaiveDate" else ("", "", y)
            ctx.ob("%s: %s: %s" % (w, kind, y), (kind == "NaiveTime" or d.replace("%y", "%Y") in DATES) and (kind == "NaiveDate" or any(t == z or t.startswith(z + ".") for z in TIMES)),
                   "a %s is read as %s, which is neither year-month-day nor month/day/year (hours:minutes:seconds)" % (kind, y), f.key)
        for z in DATES if kind == "NaiveDate" else ():
            short = z.replace("%Y", "%y")
            if ctx.ob("%s: %s: %s is read" % (w, kind, z), z in fs and short in fs, "dates such as %s (years of two and four digits) are not read" % z, f.key):
                ctx.ob("%s: %s: %s: short first" % (w, kind, z), fs.index(short) < fs.index(z), "a year of two digits is taken for one of four", f.key)
        if kind == "NaiveDateTime":
            for a in DATES:
                for b in TIMES:
                    ctx.ob("%s: %s: %s %s is read" % (w, kind, a, b), "%s %s" % (a, b) in fs, "dates with times such as %s %s are not read" % (a, b), f.key)
        if kind == "NaiveTime":
            for b in TIMES:
                ctx.ob("%s: %s: %s is read" % (w, kind, b), b in fs, "times such as %s are not read" % b, f.key)
    for k in KINDS:
        ctx.ob("%s: %s is read" % (w, k), k in tried, "a %s is not read" % k, f.key)
    oks = [l for l in leaves(r) if l.op == "adt" and l.a[1] == "Ok"]
    ctx.floor("results of a date", len(set(oks)), 1)
    kinds = {e.ret: next((KINDS[k] for k in KINDS if "::%s::" % k in e.path), None) for e in calls}
    for v in {v for l in oks for v in leaves(l.a[2]) if v not in (DEAD, CONT)}:
        ps = [x for x in leaves(v.a[2]) if x not in (DEAD, CONT)] if v.op == "adt" else []
        good = ps and all(x.op == "dfld" and x.a[1] == "Ok" and x.a[0].op == "call" and last(x.a[0].a[0]) == "parse_from_str" for x in ps)
        if ctx.ob("%s: the date parsed" % w, bool(good), "the date is %s" % show(v, 5)[:120], f.key):
            for x in ps:
                ctx.ob("%s: its kind" % w, kinds.get(x.a[0], v.a[1]) == v.a[1], "a %s becomes a %s" % (kinds.get(x.a[0]), v.a[1]), f.key)


def printed(ctx):
    fs = ctx.fns(lambda g: g.name == "fmt" and (g.self_ty or "").endswith("DateTime") and "Display" in g.key and g.key.count("Display"))
    fs = [g for g in fs if "Debug" not in g.key]
    if not ctx.ob("printed", len(fs) == 1, "%d ways to print a date" % len(fs)):
        return
    f = fs[0]
    E = ctx.engine()
    r = ctx.run(E, f, ["self", "out"])
    S = sym("self", f.locals[1])
    n = 0
    for v in KINDS.values():
        ps = set()
        for e in E.events:
            for y in (x for a in e.args for x in subterms(a)):
                if y.op == "disp" and any(z is dfld(S, v) for z in subterms(y)):
                    ps.add(y)
        n += len(ps)
        for y in ps:
            ctx.ob("printed: %s" % v, y.a[0] == "Display" and y.a[2] is dfld(S, v), "a date is printed as %s" % show(y, 5)[:100], f.key)
    ctx.notes.append("%d printed values" % n)


def check(ctx):
    fs = ctx.fns(lambda g: g.name == "try_from" and not g.closure and "DateTime" in (g.self_ty or "") and "date_time" in g.key)
    ctx.floor("conversions to a date", len(fs), 2)
    for f in fs:
        one(ctx, f)
    printed(ctx)
