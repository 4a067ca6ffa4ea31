"""C31: a source file's code section and spreadsheet section."""
from sa.q import *
from sa.terms import *
from sa import rx
from sa.check import Missing
from checks.c20 import last
from checks.c21 import pin_disc, drop

TITLE = "A source file is divided at its first line of three dashes and nothing is lost"
RULE = ("The value flow from the file's text to the two sections: the first line the separator's regular expression (compared as an automaton) matches, the lines before it "
        "and after it, and the line count by which positions in the spreadsheet section are offset; and that these sections are what the two parsers are given.")


def lines_of(t):
    """collected, or not: all lines of the text"""
    if t.op == "coll" and t.a[2] is TRUE and t.a[1].op == "elem":
        t = t.a[0]
    return t.op == "call" and last(t.a[0]) == "lines" and t.a[1].op == "sym" and t.a[1].a[0] == "text"


def part(t):
    """a range of the lines of the text -> (from, to)"""
    if t.op == "coll" and t.a[2] is TRUE and t.a[1].op == "elem":
        t = t.a[0]
    if t.op in ("take", "skip") or t.op == "call" and last(t.a[0]) in ("take", "skip"):
        a = [x for x in t.a if isinstance(x, T)]
        if lines_of(a[0]):
            return (None, a[1]) if "take" in (t.op, t.a[0] if isinstance(t.a[0], str) else "") else (a[1], None)
        return None
    if t.op == "idx" or t.op == "call" and t.a[0] == "idx":
        a = [x for x in t.a if isinstance(x, T)]
        q = None if lines_of(a[0]) else part(a[0])
        if q and q[0] is not None and q[1] is None and a[1].op == "adt" and a[1].a[1] == "RangeFrom":
            return (mk("bin", "Add", q[0], a[1].a[2]), None)     # the end of the end
        if lines_of(a[0]) and a[1].op == "adt":
            if a[1].a[1] == "RangeTo":
                return (None, a[1].a[2])
            if a[1].a[1] == "RangeFrom":
                return (a[1].a[2], None)
    return None


def joined(t):
    """lines joined by newlines -> the lines"""
    if t.op == "call" and last(t.a[0]) in ("join", "concat") and t.a[2].op == "c" and t.a[2].a[1] in ("\n", 10):
        return part(t.a[1])
    return None


def plus1(t, p):
    return t.op == "bin" and t.a[0] == "Add" and set(t.a[1:]) == {p, c_int(1)}


def number(t, p):
    """a number of lines as an offset of p: 0, 1..."""
    if t is p:
        return 0
    if t.op == "call" and t.a[0] == "len":
        q = part(t.a[1])
        return 0 if q == (None, p) else None
    if t.op == "bin" and t.a[0] == "Add":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if y.op == "c" and number(x, p) is not None:
                return number(x, p) + y.a[1]
    return None


def check(ctx):
    fs = ctx.fns(lambda g: g.name == "new" and not g.closure and "source_code::SourceCode" in g.key)
    if not fs or len({g.path for g in fs}) != 1:
        raise Missing("the constructor of source code")
    for f in fs:
        split(ctx, f)
    used(ctx)


def trimmed_dashes(pred):
    """line.trim() == "---" """
    at = [a for a in atoms_of(pred) if a.op == "a.val"]
    if len(at) != 1:
        return False
    t = at[0].a[0]
    yes, no = (drop(restrict(pred, at[0], v)) for v in ("---", OTHER))
    return t.op == "call" and last(t.a[0]) == "trim" and t.a[1].op == "elem" and lines_of(t.a[1].a[0]) and yes is TRUE and no is FALSE


def split(ctx, f):
    fs = [f]
    E = ctx.engine()
    r = ctx.run(E, fs[0], ["text", "file"])
    ps = list(dict.fromkeys(x for x in subterms(r) if x.op == "position" or x.op == "call" and last(x.a[0]) == "position"))
    if not ctx.ob("separator: one search", len(ps) == 1, "the separator is looked for %d times" % len(ps)):
        return
    pos = ps[0]
    its = [x for x in pos.a if isinstance(x, T)]
    ctx.ob("separator: the first line of all", lines_of(its[0]) and its[-2] is TRUE if len(its) > 2 else lines_of(its[0]), "the separator is not looked for from the first line on")
    pred = its[-1]
    ms = [x for x in subterms(pred) if x.op == "call" and last(x.a[0]) == "is_match"]
    ok = len(ms) == 1 and ms[0].a[2].op == "elem" and lines_of(ms[0].a[2].a[0])
    rxs = [x for x in subterms(ms[0].a[1]) if x.op == "c" and isinstance(x.a[1], str)] if ms else []
    dashes = trimmed_dashes(pred)
    if dashes:  # the same as the regular expression: both mean Unicode's whitespace
        ctx.ob("separator: three dashes alone on a line", True)
    elif ctx.ob("separator: lines compared", ok and len(rxs) == 1, "lines are not compared with a regular expression"):
        yes = drop(assume(pred, lambda a: True if a.a[0] is ms[0] else None))
        no = drop(assume(pred, lambda a: False if a.a[0] is ms[0] else None))
        ctx.ob("separator: a line that matches", yes is TRUE and no is FALSE, "a line is the separator under other conditions than matching")
        try:
            p = rxs[0].a[1]
            d = None
            if not p.startswith("^"):
                ctx.ob("separator: from the start of the line", False, "/%s/ also matches inside a line" % p)
            else:
                al = [" ", "\t", "-", "a", "=", "#", ",", "\u00a0", "1", '"', "\r", "é"]
                d = rx.differ(rx.program([(p, 1)]), rx.program([(r"^\s*---\s*$", 1)]), al)
            ctx.ob("separator: three dashes alone on a line", d is None, "" if d is None else "the line %r is %sthe separator" % (d[0], "" if d[1] else "not "))
        except rx.Unsupported as e:
            raise Missing("a regular expression that is understood: %s" % e)
    text, file = sym("text", fs[0].locals[1]), sym("file", fs[0].locals[2])
    isv = lambda x, n: x.op == "sym" and x.a[0] == n
    for how in ("Some", "None"):
        d = pin_disc(r, pos, how)
        ls = [l for l in leaves(d) if l not in (DEAD, CONT)]
        if not ctx.ob("%s: one result" % how, len(ls) == 1 and ls[0].op == "adt", "several results"):
            continue
        s = ls[0]
        p = dfld(pos, "Some")
        v = {n: E.field(s, n) for n in ("code_section", "csv_section", "length_of_code_section", "filename", "original")}
        ctx.ob("%s: name and text" % how, isv(v["filename"], "file") and isv(v["original"], "text"), "the file's name or text is changed")
        if how == "Some":
            c = v["code_section"]
            got = joined(c.a[2]) if c.op == "adt" and c.a[1] == "Some" else None
            ctx.ob("with a separator: code section", got == (None, p), "the code section is %s" % show(c, 6)[:160])
            got = joined(v["csv_section"])
            ctx.ob("with a separator: spreadsheet section", got is not None and got[1] is None and plus1(got[0], p), "the spreadsheet section is %s" % show(v["csv_section"], 6)[:160])
            ctx.ob("with a separator: lines above", number(v["length_of_code_section"], p) == 1, "%s lines are counted above the spreadsheet section" % show(v["length_of_code_section"], 5)[:100])
        else:
            c = v["code_section"]
            ctx.ob("without a separator: no code section", c.op == "adt" and c.a[1] == "None", "the code section is %s" % show(c, 4)[:100])
            ctx.ob("without a separator: spreadsheet section", isv(v["csv_section"], "text"), "the spreadsheet section is %s" % show(v["csv_section"], 4)[:100])
            ctx.ob("without a separator: lines above", v["length_of_code_section"] is c_int(0), "%s lines are counted above" % show(v["length_of_code_section"], 3)[:80])


def used(ctx):
    f = [g for g in ctx.fns(lambda g: g.name == "parse" and not g.closure and "spreadsheet::Spreadsheet" in g.key)]
    if len(f) != 1:
        raise Missing("the spreadsheet's parser")
    E = ctx.engine(opaque=lambda g: g.key.startswith("csvp::") or (g.name == "parse" and "csvpp::" in g.key and g.key != f[0].key))
    ctx.run(E, f[0], ["source"])
    ps = [e for e in E.events if e.path.endswith("parse") and e.path.startswith("csvp::")]
    if ctx.ob("spreadsheet section parsed", len(ps) == 1, "the csv parser is called %d times" % len(ps)):
        src, cfg = ps[0].args[:2]
        ctx.ob("spreadsheet section parsed as it is", src.op == "fld" and src.a[1] == "csv_section", "what is parsed is %s" % show(src, 4)[:100])
        n = E.field(cfg, "lines_above")
        ctx.ob("positions count the lines above", n.op == "fld" and n.a[1] == "length_of_code_section", "positions start at line %s" % show(n, 4)[:100])
        sp = E.field(cfg, "separator")
        ctx.ob("cells are separated by commas", sp.op == "c" and sp.a[1] in (",", 44), "cells are separated by %s" % show(sp, 2)[:40])
    g = [h for h in ctx.fns(lambda h: h.name == "try_from" and "SourceCode" in (h.self_ty or "") and not h.closure)]
    if len(g) == 1:
        E = ctx.engine(opaque=lambda h: h.name == "new" and h.key.startswith("csvpp::source_code::SourceCode::new"))
        r = ctx.run(E, g[0], ["file"])
        rd = [e for e in E.events if last(e.path) in ("read_to_string",)]
        nw = [e for e in E.events if last(e.path) == "new" and "SourceCode" in e.path]
        ok = len(rd) == 1 and len(nw) == 1 and nw[0].args[0] is dfld(rd[0].ret, "Ok") and nw[0].args[1].op == "sym"
        ctx.ob("file: read whole", ok, "the source is not what the file contains")
        if ok:
            bad = [l for l in leaves(pin_disc(r, rd[0].ret, "Err")) if l not in (DEAD, CONT)]
            good = [l for l in leaves(pin_disc(r, rd[0].ret, "Ok")) if l not in (DEAD, CONT)]
            ctx.ob("file: unreadable", bad and all(l.op == "adt" and l.a[1] == "Err" for l in bad), "a file that cannot be read is no error")
            ctx.ob("file: result", len(good) == 1 and good[0].op == "adt" and good[0].a[1] == "Ok" and good[0].a[2] is nw[0].ret, "the sections are not returned")
    else:
        raise Missing("reading of a source file")
