"""C19: formulas are written back as text with the same meaning."""
from sa.q import *
from sa.terms import *
from checks.c20 import last, NODE, SIGN, GONE

TITLE = "Formulas are written out as text that means the same formula"
RULE = ("The text each kind of node prints is evaluated into its pieces, for every combination of sign and percentage, and compared with the "
        "formula syntax: operands in order around their operator and in parentheses, arguments in order and separated by commas, numbers with their "
        "own sign and percentage, spreadsheet literals for booleans, text in quotes. The unquoting loop is evaluated as a transition table.")


def shown(p):
    return [x if isinstance(x, str) else "<%s %s>" % (x[1].split("::")[-1], show(x[2], 4)[-60:]) for x in p]


def display(ctx, ty):
    fs = ctx.fns(lambda g: g.name == "fmt" and g.trait and "Display" in g.trait and not g.closure and (g.self_ty or "").split("<")[0].endswith(ty))
    if not ctx.ob("display " + ty, len(fs) == 1, "%d texts for %s" % (len(fs), ty)):
        return None
    return printed(ctx, fs[0])


def check(ctx):
    node(ctx)
    wrappers(ctx)
    unquote(ctx)


def is_part(x, ty, v):
    return not isinstance(x, str) and x[0] == "Display" and x[1].split("<")[0].split("::")[-1] == ty and x[2] is v


def node(ctx):
    d = display(ctx, "ast::node::Node")
    if d is None:
        return
    E, self, text = d
    at = atom_disc(self, NODE)
    seen = set()

    def kind(k, *facts):
        seen.add(k)
        return given(text, (at, k), *facts)

    def expect(key, t, want, msg):
        t = flat(t)
        if t.op == "gate":
            ls = [l for l in leaves(t) if l not in GONE]
            t = ls[0] if len(ls) == 1 else t
        got = pieces(t)
        okk = len(got) == len(want) and all(g == w if isinstance(w, str) else w(g) for g, w in zip(got, want))
        ctx.ob(key, okk, "%s is written as %s" % (msg, " ".join(map(str, shown(got)))[:160]))

    for b, w in ((True, "TRUE"), (False, "FALSE")):
        v = dfld(self, "Boolean")
        expect("boolean %s" % b, kind("Boolean", (mk("a.val", v), b)), [w], "the boolean %s" % b)
    for k in ("Integer", "Float"):
        sg, pc, v = (dfld(self, k, n) for n in ("sign", "percentage", "value"))
        num = lambda x, v=v: is_part(x, "i64" if k == "Integer" else "f64", v)
        for s in (None, "Positive", "Negative"):
            for p in (True, False):
                facts = [(mk("a.val", pc), p), (atom_disc(sg, OPTION), "Some" if s else "None")]
                if s:
                    facts.append((atom_disc(dfld(sg, "Some"), SIGN), s))
                sign = dfld(sg, "Some")
                want = ([(lambda x: is_part(x, "NumberSign", sign) or x == ("+" if s == "Positive" else "-"))] if s else []) + [num] + (["%"] if p else [])
                t = flat(kind(k, *facts))
                got = pieces([l for l in leaves(t) if l not in GONE][0]) if t.op == "gate" else pieces(t)
                # a sign written as a constant merges with nothing else
                okk = len(got) == len(want) and all(g == w if isinstance(w, str) else w(g) for g, w in zip(got, want))
                ctx.ob("%s %s%s" % (k, s or "plain", " percent" if p else ""), okk, "a %s%s%s number is written as %s" % (
                    s or "plain", " percentage" if p else "", " " + k, " ".join(map(str, shown(got)))[:120]))
    l, o, r = (dfld(self, "InfixFunctionCall", n) for n in ("left", "operator", "right"))
    t = pieces(flat(kind("InfixFunctionCall")))
    core = [x for x in t if not isinstance(x, str)]
    ctx.ob("infix: operands", len(core) == 3 and is_part(core[0], "Ast", l) and core[1][2] is o and is_part(core[2], "Ast", r), "an infix call is written as %s" % shown(t))
    ctx.ob("infix: parentheses", len(t) == 7 and isinstance(t[0], str) and t[0].strip() == "(" and isinstance(t[-1], str) and t[-1].strip() == ")",
           "an infix call is not written in parentheses: %s" % shown(t))
    if len(t) == 7:
        ctx.ob("infix: spaces", all(isinstance(t[i], str) and not t[i].strip() for i in (2, 4)), "an infix call is written as %s" % shown(t))
    a, n = dfld(self, "FunctionCall", "args"), dfld(self, "FunctionCall", "name")
    t = flat(kind("FunctionCall"))
    ls = [l for l in leaves(t) if l not in GONE]
    t = pieces(ls[0] if len(ls) == 1 else t)
    R = t[0][2] if len(t) == 2 and not isinstance(t[0], str) else None
    if R is not None and R.op == "rec" and R.id in E.rec_info:
        # written piece by piece in a loop
        start = pieces(E.rec_info[R.id][0])
        ctx.ob("call: form", len(start) == 2 and start[0][2] is n and start[1] == "(" and t[1] == ")", "a call is written as %s" % shown(start + t[1:]))
        ctx.ob("call: arguments", each_written(E, R, a), "the arguments of a call are written as %s" % show(E.rec_info[R.id][1], 6)[:120])
    elif ctx.ob("call: form", len(t) == 4 and t[0][2] is n and t[1] == "(" and t[3] == ")", "a call is written as %s" % shown(t)):
        ctx.ob("call: arguments", joined(E, t[2][2], a), "the arguments of a call are written as %s" % show(t[2][2], 6)[:120])
    expect("reference", kind("Reference"), [lambda x: x[2] is dfld(self, "Reference")], "a reference")
    t = pieces(flat(kind("Text")))
    ctx.ob("text: quoted", len(t) == 3 and t[0] == '"' and t[2] == '"', "text is written as %s" % shown(t))
    if len(t) == 3:
        x = dfld(self, "Text")
        v = t[1][2]
        rep = v.op == "call" and last(v.a[0]) == "replace" and v.a[1] is x and [y.a[1] if y.op == "c" else y for y in v.a[2:4]] == ['"', '""']
        ctx.ob("text: content", v is x or rep, "text is written as %s" % show(v, 4)[:80])
        ctx.ob("text-quotes", rep, "quotes inside text are not doubled: the written formula ends the text early")
    expect("date", kind("DateTime"), [lambda x: is_part(x, "DateTime", dfld(self, "DateTime"))], "a date")
    ctx.floor("kinds of nodes", len(seen), 8)
    s = display(ctx, "ast::node::NumberSign")
    if s is not None:
        E, self, text = s
        for v, w in (("Positive", "+"), ("Negative", "-")):
            t = given(text, (atom_disc(self, SIGN), v))
            ctx.ob("sign " + v, pieces(flat(t)) == [w], "the sign %s is written as %s" % (v, shown(pieces(flat(t)))))


def each_written(E, R, src):
    """a loop over src that writes each element as its own text, with a comma before every one but the first"""
    step = E.rec_info[R.id][1]
    if step is None:
        return False
    step = assume(step, lambda a: "Some" if a.op == "a.disc" and a.a[0].op == "next" else None)
    pos = [a for a in atoms_of(step) if a.op == "a.val" and a.a[0].op == "bin" and any(y.op == "pos" and y.a[0] is src for y in a.a[0].a if isinstance(y, T))]
    if len(pos) != 1:
        return False
    b = pos[0].a[0]
    zero = lambda i: {"Lt": lambda x, y: x < y, "Gt": lambda x, y: x > y, "Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y,
                      "Le": lambda x, y: x <= y, "Ge": lambda x, y: x >= y}[b.a[0]](*(i if y.op == "pos" else y.a[1] for y in b.a[1:]))
    if not all(y.op in ("pos", "c") for y in b.a[1:]):
        return False
    for i in range(4):
        ls = [l for l in leaves(assume(step, lambda a: zero(i) if a is pos[0] else None)) if l not in GONE]
        if len(ls) != 1:
            return False
        p = pieces(ls[0])
        want = 2 if i == 0 else 3
        if len(p) != want or isinstance(p[0], str) or p[0][2] is not R or not elem_text(p[-1], src) or (i and not (isinstance(p[1], str) and p[1].strip() == ",")):
            return False
    return True


def elem_text(p, src):
    return not isinstance(p, str) and p[0] == "Display" and p[1].endswith("Ast") and p[2].op == "elem" and p[2].a[0] is src


def joined(E, t, src):
    """src's elements, each as its own text, in order, separated by commas"""
    if t.op == "call" and last(t.a[0]) == "join" and len(t.a) >= 3:
        sep = t.a[2]
        if not (sep.op == "c" and isinstance(sep.a[1], str) and sep.a[1].strip() == ","):
            return False
        e = each_in_order(E, t.a[1], src)
        if e is None:
            return False
        p = pieces(flat(e))
        return len(p) == 1 and elem_text(p[0], src)
    return False


def wrappers(ctx):
    d = display(ctx, "ast::Ast")
    if d is not None:
        E, self, t = d
        p = pieces(flat(t))
        ctx.ob("ast", len(p) == 1 and is_part(p[0], "Node", fld(self, "0")), "a tree is written as %s" % shown(p))
    d = display(ctx, "variable_value::VariableValue")
    if d is not None:
        E, self, t = d
        vv = "csvpp::ast::variable_value::VariableValue"
        for k, ty in (("Absolute", "Address"), ("Ast", "Ast"), ("Row", "Row")):
            p = pieces(flat(given(t, (atom_disc(self, vv), k))))
            ctx.ob("value " + k, len(p) == 1 and is_part(p[0], ty, dfld(self, k)), "a value %s is written as %s" % (k, shown(p)))


def unquote(ctx):
    """Reading a quoted text: a transition table over the characters."""
    f = ctx.fn("parse_text")
    fs = [g for g in ctx.fns(lambda g: g.name == "parse_text" and not g.closure)] + ctx.fns(lambda g: g.name == "text_unquote" and not g.closure)
    n = 0
    for f in ctx.fns(lambda g: g.name == "parse_text" and not g.closure):
        n += 1
        E = ctx.engine(opaque=lambda g: g.name in ("into_parse_error", "input"))
        r = ctx.run(E, f, ["token"])
        one_unquote(ctx, E, r, f)
    ctx.floor("text parsers", n, 1)


PARTS = ("skip", "take", "step_by", "skip_while", "take_while", "filter", "filter_map", "split_whitespace", "replace", "to_lowercase", "to_uppercase", "trim_matches", "trim_end_matches", "trim_start_matches", "to_ascii_lowercase",
         "to_ascii_uppercase")


def one_unquote(ctx, E, r, f):
    ks = [e for e in E.events if last(e.path) == "push" and len(e.args) == 2]
    ks = [e for e in ks if e.loops and any(x.op == "rec" and x.id in E.rec_info for x in deep(E, e.args[0]))]
    if ks and ks[0].args[0].op != "rec":
        ks = sorted(ks, key=lambda e: e.args[0].op != "rec")
    if not (ks and ks[0].args[0].op == "rec"):
        ctx.notes.append("a quoted text is not read by a loop that appends characters: not analysed")
        return
    buf = ks[0].args[0]
    step = E.rec_info[buf.id][1]
    lid = ks[0].loops[-1]

    def is_char(t):
        return t.op == "elem"

    def choose(cls, a):
        if a.op == "a.disc" and a.a[0].op == "next":
            return "Some"
        if a.op == "a.val" and is_char(a.a[0]):
            return 34 if cls == "quote" else OTHER
        return starts(a)

    def starts(a):
        return True if a.op == "a.val" and a.a[0].op == "call" and last(a.a[0].a[0]) == "starts_with" else None

    def done(a):
        return "None" if a.op == "a.disc" and a.a[0].op == "next" else OTHER if a.op == "a.val" and is_char(a.a[0]) else starts(a)

    def spec(s, c):
        # 0 before the opening quote, 1 inside, 2 after a quote inside
        if s == 0:
            return (1, "") if c == "quote" else ("any", None)
        if s == 1:
            return (2, "") if c == "quote" else (1, "char")
        return (1, "quote") if c == "quote" else (None, None)

    def compare(s2, a2, outs, want):
        if s2 == "any":
            return True
        if (s2 is None) != (a2 is None):
            return False
        if s2 is None:
            return True
        w = pushed(outs["text"], buf)
        if w is None:
            return False
        if want == "":
            return not w
        return len(w) == 1 and (is_char(w[0]) or (want == "quote" and w[0].op == "c" and w[0].a[1] in (34, '"')))

    okr = only_true(okd(r))

    def final(s, st):
        d = auto.pin(okr, st, end=True)
        return satisfiable(d) if s == 2 else not satisfiable(d) if s != "any" else True

    try:
        auto = Auto(E, lid, {"text": step}, choose, done)
        sp = lambda s, c: spec(s, c) if s != "any" else ("any", None)
        res = list(bisimulate(auto, ["quote", "other"], 0, sp, compare, final))
    except Auto.Unknown as e:
        ctx.notes.append("the unquoting loop is not analysed: " + str(e)[:200])
        return
    read = {x.a[0] for t in (step, E.latch[lid]) for x in subterms(t) if x.op == "elem"}
    trimmed = [x for t in read for x in subterms(t) if x.op in PARTS or x.op == "call" and last(x.a[0]) in PARTS]
    ctx.ob("unquote: every character", not trimmed, "the characters between the quotes are read through %s" % [last(x.a[0]) if x.op == "call" else x.op for x in trimmed][:2])
    ctx.floor("states of a quoted text", len(res), 6)
    for k, o in res:
        ctx.ob("unquote: " + k, o, "quoted text: %s is handled differently" % k)
    goods = [l for l in leaves(r) if l.op == "adt" and l.a[1] == "Ok"]
    for l in goods:
        t = l.a[2]
        ctx.ob("unquote: kind", t.op == "adt" and t.a[0] == NODE and t.a[1] == "Text", "quoted text becomes %s" % show(t, 2)[:60])
    texts = {x for l in goods if l.a[2].op == "adt" for x in leaves(l.a[2].a[2])}
    ctx.ob("unquote: result", buf in texts, "the text read is %s" % [show(x, 3)[:50] for x in texts])


def pushed(t, buf):
    """What is appended to buf in t, as characters; None if t is something else."""
    out = []
    while t is not None and t.op == "upd" and t.a[0] == "push":
        out.insert(0, t.a[3])
        t = t.a[2]
    if t is buf:
        return out
    if t is not None and t.op == "fmt" and t.a and t.a[0].op == "disp" and t.a[0].a[2] is buf:
        return [x.a[2] if x.op == "disp" else x for x in t.a[1:]] + out
    return None
