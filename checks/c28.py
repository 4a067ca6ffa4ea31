"""C28: what the command line says is what the program does."""
from sa.q import *
from sa.terms import *
from sa.check import Missing
from checks.c20 import last

TITLE = "Every command line option has exactly its documented effect"
RULE = ("The definition of the command line (evaluated from its construction) gives each option its letter, name, kind and default; and the value flow from the options to the "
        "compiler: each setting of a compilation, the sheet's name, the log level, the kind of the output by extension (evaluated for every supported and many other extensions) "
        "or sheet id (evaluated per kind of character), the variables given by -k, and the credentials' file.")

FLAG, SET, COUNT, LIST = "SetTrue", "Set", "Count", "Append"
OPTIONS = {      # field: letter, name, kind
    "backup": ("b", "backup", FLAG), "google_sheet_id": ("g", "google-sheet-id", SET), "google_account_credentials": (None, "google-account-credentials", SET),
    "key_values": ("k", "key-values", LIST), "no_cache": (None, "no-cache", FLAG), "output_filename": ("o", "output-filename", SET), "safe": ("s", "safe", FLAG),
    "sheet_name": ("n", "sheet-name", SET), "verbose": ("v", "verbose", COUNT), "x_offset": ("x", "x-offset", SET), "y_offset": ("y", "y-offset", SET),
    "input_filename": (None, None, SET)}
DEFAULTS = {"backup": False, "no_cache": False, "safe": False, "x_offset": 0, "y_offset": 0}
EXT = {"csv": "Csv", "CSV": "Csv", "cSv": "Csv", "Csv": "Csv", "xlsx": "Excel", "XLSX": "Excel", "Xlsx": "Excel", "xlsm": "Excel", "xltx": "Excel", "xltm": "Excel", "ods": "OpenDocument", "ODS": "OpenDocument", "oDs": "OpenDocument", "XlSm": "Excel", "xLTx": "Excel", "XLTM": "Excel"}
NOEXT = ["", "xls", "txt", "tsv", "csvpp", "csvs", "xcsv", "od", "numbers", "pdf", "doc", "xml", "html", "json"]
LEVELS = ["Error", "Warn", "Info", "Debug", "Trace"]


def chain(t):
    """nested builder calls -> [(method, arguments)] from the outermost"""
    out = []
    while t.op == "call":
        a = [x for x in t.a if isinstance(x, T)]
        out.append((last(t.a[0]), a[1:]))
        if not a:
            break
        if last(t.a[0]) == "new":
            out[-1] = ("new", a)
            break
        t = a[0]
    return out


def options(ctx):
    fs = ctx.fns(lambda g: g.name == "augment_args" and not g.closure and "CliArgs" in (g.self_ty or ""))
    if len(fs) != 1:
        raise Missing("the definition of the command line")
    f = fs[0]
    E = ctx.engine()
    r = ctx.run(E, f, ["cmd"])
    used = set(subterms(r))
    seen = {}
    for e in E.events:
        if last(e.path) != "arg" or "command::Command" not in e.path:
            continue
        ch = chain(e.args[1])
        name = next((a[0].a[1] for m, a in ch if m == "new" and a and a[0].op == "c"), None)
        if name in seen or name not in OPTIONS:
            ctx.ob("option " + str(name), False, "the option %s is %s" % (name, "defined twice" if name in seen else "not documented"))
            continue
        seen[name] = ch
        ctx.ob("option %s: always there" % name, e.guard is TRUE and e.ret in used, "the option is not always defined", where(e))
        letter, long, kind = OPTIONS[name]
        val = lambda m: [a[0] for n, a in ch if n == m and a]
        one = lambda m: val(m)[0].a[1] if len(val(m)) == 1 and val(m)[0].op == "c" else (None if not val(m) else "?")
        sh = one("short")
        ctx.ob("option %s: letter" % name, (chr(sh) if isinstance(sh, int) else sh) == letter, "it is -%s" % sh)
        ctx.ob("option %s: name" % name, one("long") == long, "it is --%s" % one("long"))
        k = val("action")
        ctx.ob("option %s: kind" % name, bool(k) and k[0].op == "adt" and k[0].a[1] == kind, "its values are handled by %s" % (show(k[0], 2) if k else "nothing"))
        dv = val("default_value")
        dd = DEFAULTS.get(name)
        if dv:
            cl = [x for x in subterms(dv[0]) if x.op == "clo"]
            g = ctx.F.fns.get(cl[0].a[0]) if cl else None
            got = None
            if g is not None:
                E2 = ctx.engine()
                got = ctx.run(E2, g, ["c%d" % i for i in range(g.nargs)])
                got = [x.a[1] for x in subterms(got) if x.op == "c" and not isinstance(x.a[1], str)] + \
                      [x.a[1] for e2 in E2.events for a in e2.args for x in subterms(a) if x.op == "c" and not isinstance(x.a[1], str)]
                got = got[0] if got else None
            elif dv[0].op == "c":
                got = {"false": False, "0": 0}.get(dv[0].a[1], dv[0].a[1])
            ctx.ob("option %s: default" % name, got is not None and dd is not None and int(got) == int(dd), "its default is %s" % got)
        else:
            ctx.ob("option %s: default" % name, name not in ("x_offset", "y_offset"), "it has no default")
        rq = [x for x in val("required")]
        if name == "input_filename":
            ctx.ob("the source file is required", bool(rq) and rq[0] is TRUE, "the source file may be missing")
        else:
            ctx.ob("option %s: optional" % name, all(x is not TRUE for x in rq[:1]), "the option is required")
        gr = val("group")
        ctx.ob("option %s: excludes" % name, [x.a[1] for x in gr if x.op == "c"] == (["output"] if name in ("google_sheet_id", "output_filename") else []),
               "it is in the group %s" % [show(x, 1) for x in gr])
        other = {m for m, a in ch} & {"conflicts_with", "conflicts_with_all", "requires", "exclusive", "hide", "overrides_with", "last", "env", "value_delimiter", "ignore_case", "global",
                                      "default_missing_value", "allow_hyphen_values", "trailing_var_arg", "value_terminator", "raw", "require_equals"}
        ctx.ob("option %s: nothing else" % name, not other, "it also has %s" % sorted(other))
    for n in OPTIONS:
        ctx.ob("option %s: exists" % n, n in seen, "the option is gone")


def textual(t, of):
    """the text of `of`, perhaps in lower case"""
    low = False
    while t is not of:
        if t.op == "call" and last(t.a[0]) in ("to_str", "to_string_lossy", "as_os_str", "as_str", "as_ref", "to_owned", "to_string", "deref", "as_encoded_bytes", "to_os_string", "unwrap_or_default"):
            t = t.a[1]
        elif t.op == "call" and last(t.a[0]) in ("to_lowercase", "to_ascii_lowercase", "make_ascii_lowercase"):
            t, low = t.a[1], True
        elif t.op in ("dfld", "fld", "disp", "fmt", "ok") and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == "disp":
            t = t.a[-1]
        else:
            return None
    return "low" if low else "as is"


def scene(cli, **k):
    """the answers to tests about the arguments"""
    f = lambda n: fld(cli, n)
    ext_of = dfld(f("output_filename"), "Some")

    def disc(t):
        for n in ("sheet_name", "google_sheet_id", "output_filename", "google_account_credentials"):
            if t is f(n):
                return k.get(n)
        if t.op == "call":
            n = last(t.a[0])
            if n == "file_stem" and t.a[1] is f("input_filename"):
                return k.get("stem")
            if n == "extension" and t.a[1] is ext_of:
                return "None" if k.get("ext") is None else "Some"
            if n == "to_str":
                return "Some"
            if n == "split_once":
                return "Some"
            if n == "next":
                return "None"
            if n == "parse" or n.startswith("parse"):
                return "Ok"
        if t.op == "next":
            return "None"
        return None

    def val(t):
        while t.op == "cast" or t.op == "call" and last(t.a[0]) in ("from", "into"):
            t = next(x for x in t.a if isinstance(x, T))
        if t is f("verbose"):
            return k.get("verbose")
        if t.op == "bin" and f("verbose") in t.a and k.get("verbose") is not None:
            x, y = [k["verbose"] if z is f("verbose") else (z.a[1] if z.op == "c" else None) for z in t.a[1:3]]
            if x is not None and y is not None:
                return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}.get(t.a[0])
        for b in ("backup", "safe", "no_cache"):
            if t is f(b):
                return k.get(b)
        if t.op == "call" and last(t.a[0]) in ("eq_ignore_ascii_case", "eq") and k.get("ext") is not None:
            a = [x for x in t.a if isinstance(x, T)]
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                c = ctext(y)
                if c is not None and any(z.op == "call" and last(z.a[0]) == "extension" and z.a[1] is ext_of for z in subterms(x)):
                    low = any(z.op == "call" and "lowercase" in last(z.a[0]) for z in subterms(x))
                    if last(t.a[0]) != "eq":
                        return k["ext"].lower() == c.lower()
                    return (k["ext"].lower() if low else k["ext"]) == c
        if t.op == "all" and k.get("id") is not None:
            return k["id"]
        return None

    def choose(a):
        if a.op == "a.disc":
            return disc(a.a[0])
        if k.get("ext") is not None and a.op == "a.val" and a.a[0].op != "all":
            e = [z for z in subterms(a.a[0]) if z.op == "call" and last(z.a[0]) == "extension" and z.a[1] is ext_of]
            if e and a.a[0].op != "call":
                w = textual(a.a[0], e[0])
                if w:
                    return k["ext"].lower() if w == "low" else k["ext"]
        v = val(a.a[0])
        if v is None and a.a[0].op == "call" and "lowercase" in last(a.a[0].a[0]) and k.get("ext") is not None:
            return k["ext"].lower()
        return v
    return choose


def ctext(y):
    cs = [x.a[1] for x in subterms(y) if x.op == "c" and isinstance(x.a[1], str)]
    return cs[0] if len(cs) == 1 else None


def char_test(c):
    def choose(a):
        t = a.a[0]
        if a.op == "a.val" and t.op == "call":
            n = last(t.a[0])
            if n in ("is_alphanumeric", "is_ascii_alphanumeric"):
                return c.isalnum()
            if n in ("is_alphabetic", "is_ascii_alphabetic"):
                return c.isalpha()
            if n in ("is_numeric", "is_ascii_digit"):
                return c.isdigit()
            if n == "contains":
                s = ctext(t.a[1])
                return None if s is None else c in s
        if a.op == "a.val" and t.op in ("elem",):
            return ord(c)
        if a.op == "a.val" and t.op == "bin" and any(x.op == "elem" for x in t.a[1:3]):
            x, y = [ord(c) if z.op == "elem" else (z.a[1] if z.op == "c" else None) for z in t.a[1:3]]
            x, y = [ord(z) if isinstance(z, str) else z for z in (x, y)]
            if x is not None and y is not None:
                return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y, "Eq": x == y, "Ne": x != y}.get(t.a[0])
        return None
    return choose


def settings(ctx):
    fs = [g for g in ctx.fns(lambda g: g.name == "try_from" and not g.closure and (g.self_ty or "").endswith("compiler::Compiler"))]
    if len(fs) != 1:
        raise Missing("making a compiler from the arguments")
    f = fs[0]
    E = ctx.engine(opaque=lambda g: g.key.startswith("csvpp") and (
        g.name == "parse" and "AstParser" in g.key or g.name == "init" and "logger" in g.key or g.name == "code_syntax_error"
        or g.name.startswith("parse_key_value")))
    r = ctx.run(E, f, ["cli"])
    cli = sym("cli", f.locals[1])
    F = lambda n: fld(cli, n)
    good = dict(sheet_name="Some", stem="Some", verbose=0, google_sheet_id="None", output_filename="Some", ext="csv", id=True)

    gid = dfld(F("google_sheet_id"), "Some")

    def under(**k):
        ch = scene(cli, **dict(good, **k))
        if k.get("google_sheet_id") == "Some":
            ch = id_scene(E, ch, gid, "a", "None")
        d = assume(assume(r, ch), ch)
        return [l for l in dict.fromkeys(leaves(d)) if l not in (DEAD, CONT)]

    def comp(what, **k):
        ls = under(**k)
        if ctx.ob(what + ": accepted", len(ls) == 1 and ls[0].op == "adt" and ls[0].a[1] == "Ok", "the result is %s" % [show(l, 3)[:100] for l in ls][:3]):
            return ls[0].a[2]
        return None

    def rejected(what, **k):
        ls = under(**k)
        ctx.ob(what + ": rejected", bool(ls) and all(l.op == "adt" and l.a[1] == "Err" for l in ls), "accepted: %s" % [show(l, 3)[:100] for l in ls][:3])
    z = comp("plain")
    if z is None:
        return
    cfg = lambda x, n: E.field(E.field(x, "config"), n)

    def value(what, got, want, k):
        got = assume(got, scene(cli, **dict(good, **k)))
        ctx.ob(what, got is want, "it is %s" % show(got, 4)[:120])
    for n, opt, neg in (("backup", "backup", False), ("overwrite_values", "safe", True), ("use_cache", "no_cache", True)):
        for b in (True, False):
            x = comp("%s=%s" % (opt, b), **{opt: b})
            if x is not None:
                got = assume(cfg(x, n), scene(cli, **{opt: b}))
                if got is F(opt):
                    got = c_bool(b)
                ctx.ob("%s=%s: the setting %s" % (opt, b, n), truth(got) is c_bool(b != neg), "it is %s" % show(got, 4)[:100])
    ctx.ob("credentials", cfg(z, "google_account_credentials") is F("google_account_credentials"), "they are %s" % show(cfg(z, "google_account_credentials"), 3)[:80])
    off = cfg(z, "offset")
    ctx.ob("offsets", off.op in ("tup", "tuple") and off.a == (F("x_offset"), F("y_offset")), "they are %s" % show(off, 4)[:100])
    ctx.ob("source file", E.field(z, "input_filename") is F("input_filename"), "it is %s" % show(E.field(z, "input_filename"), 3)[:80])
    kv = cfg(z, "key_values")
    kvs = [e for e in E.events if "parse_key_value" in e.path]
    ctx.ob("variables", len(kvs) == 1 and kv is dfld(kvs[0].ret, "Ok") and kvs[0].args[0] is F("key_values"), "they are %s" % show(kv, 3)[:100])
    for opt in ("Some", "None"):
        x = comp("sheet name " + opt, sheet_name=opt)
        if x is None:
            continue
        got = cfg(x, "sheet_name")
        if opt == "Some":
            ctx.ob("sheet name: as given", got is dfld(F("sheet_name"), "Some"), "it is %s" % show(got, 4)[:100])
        else:
            st = [y for y in subterms(got) if y.op == "call" and last(y.a[0]) == "file_stem" and y.a[1] is F("input_filename")]
            ctx.ob("sheet name: the source file's", bool(st) and (got is dfld(st[0], "Some") or textual(got, st[0]) == "as is"), "it is %s" % show(got, 5)[:120])
    rejected("no sheet name at all", sheet_name="None", stem="None")
    lv = [e for e in E.events if e.path.endswith("logger::init")]
    for v in range(7):
        if v < 5:
            x = comp("-v x%d" % v, verbose=v)
            if x is not None:
                got = assume(cfg(x, "verbosity"), scene(cli, verbose=v))
                ctx.ob("-v x%d: level" % v, got.op == "adt" and got.a[1] == LEVELS[v], "it is %s" % show(got, 3)[:80])
                if lv:
                    got = [l for l in leaves(assume(lv[0].args[0], scene(cli, **dict(good, verbose=v)))) if l is not DEAD]
                    ctx.ob("-v x%d: logged" % v, bool(got) and all(l.op == "adt" and l.a[1] == LEVELS[v] for l in got), "the logger is given %s" % [show(l, 2) for l in got][:2])
        else:
            rejected("-v x%d" % v, verbose=v)
    ctx.ob("logger", len(lv) == 1, "the logger is set up %d times" % len(lv))
    # output
    for ex, kind in list(EXT.items()) + [(x, None) for x in NOEXT]:
        if kind is None:
            rejected("extension " + repr(ex), ext=ex)
            continue
        x = comp("extension " + ex, ext=ex)
        if x is not None:
            o = assume(E.field(x, "output"), scene(cli, **dict(good, ext=ex)))
            ctx.ob("extension %s: output" % ex, o.op == "adt" and o.a[1] == kind and o.a[2] is dfld(F("output_filename"), "Some"), "it is %s" % show(o, 3)[:100])
    rejected("no extension", ext=None)
    rejected("no output", output_filename="None")
    for has in ("Some", "None"):
        x = comp("sheet id (%s output file)" % has, google_sheet_id="Some", output_filename=has)
        if x is not None:
            o = E.field(x, "output")
            ctx.ob("sheet id (%s output file): output" % has, o.op == "adt" and o.a[1] == "GoogleSheets" and o.a[2] is dfld(F("google_sheet_id"), "Some"), "it is %s" % show(o, 3)[:100])
    for chars, good_ in (("azAZ09mM5-_", True), (" /.?#=&%:\n'\"\\+", False)):
        for c in chars:
            ls = []
            for more in ("None",) if good_ else ("Some", "None"):
                ch = id_scene(E, scene(cli, **dict(good, google_sheet_id="Some")), gid, c, more)
                if assume(assume(E.retc, ch), ch) is FALSE:
                    continue
                ls = ls or [l for l in dict.fromkeys(leaves(assume(assume(r, ch), ch))) if l not in (DEAD, CONT)]
            if not good_ and any(x.op == "all" and any(y is gid for y in subterms(x)) for x in subterms(r)):
                # among others which are accepted
                ch = id_scene(E, scene(cli, **dict(good, google_sheet_id="Some")), gid, c, "None", "a")
                if assume(assume(E.retc, ch), ch) is not FALSE:
                    ls = ls + [l for l in dict.fromkeys(leaves(assume(assume(r, ch), ch))) if l not in (DEAD, CONT)]
            ctx.ob("sheet id: %r" % c, bool(ls) and all(l.op == "adt" and l.a[1] == ("Ok" if good_ else "Err") for l in ls),
                   "ids with this character are %s" % ("rejected" if good_ else "accepted"))


def id_scene(E, base, gid, c, more, also=""):
    """the answers to tests about a sheet id with (only, or also) the character c"""
    about = lambda t: any(x is gid for x in subterms(t))

    def choose(a):
        t = a.a[0]
        if about(t):
            if a.op == "a.val" and t.op == "all":
                vs = [assume(t.a[2], char_test(x)) for x in (c, also) if x]
                return False if FALSE in vs else True if all(v is TRUE for v in vs) else None
            if a.op == "a.disc" and t.op == "findr":
                v = assume(t.a[2], char_test(c))
                return "Some" if v is TRUE else "None" if v is FALSE else None
            if a.op == "a.disc" and t.op == "call" and last(t.a[0]) == "position":
                v = assume(t.a[-1], char_test(c))
                return "Some" if v is TRUE else "None" if v is FALSE else None
            v = char_test(c)(a)
            if v is not None:
                return v
        v = base(a)
        if a.op == "a.disc" and (t.op == "next" or t.op == "call" and last(t.a[0]) == "next"):
            # a loop over its characters: the bad one is met, the good ones are done with
            return more
        if v is None and a.op == "a.val" and t.op == "rec" and len(E.rec_info.get(t.id, ())) > 1 and E.rec_info[t.id][1] is not None:
            init, step = E.rec_info[t.id][:2]
            if init in (TRUE, FALSE) and about(step):
                x = assume(assume(step, char_test(c)), lambda y: "Some" if y.op == "a.disc" and y.a[0].op == "next" else None)
                x = x if x is not t else init
                return True if x is TRUE else False if x is FALSE else init is TRUE if x.op == "rec" else None
        return v
    return choose


def variables(ctx):
    fs = ctx.fns(lambda g: g.name.startswith("parse_key_value") and not g.closure)
    if not fs or len({g.path for g in fs}) != 1:
        raise Missing("the variables of the command line")
    for f in fs:
        E = ctx.engine(opaque=lambda g: g.key.startswith("csvpp") and (g.name == "parse" and "AstParser" in g.key or g.name in ("code_syntax_error",) or g.name == "new"))
        r = ctx.run(E, f, ["kvs", "file"])
        kvs = sym("kvs", f.locals[1])
        sp = [e for e in E.events if last(e.path) in ("split_once",)]
        pa = [e for e in E.events if last(e.path) == "parse" and "AstParser" in e.path]
        if not ctx.ob("-k: divided", len(sp) == 1 and sp[0].args[0].op == "elem" and sp[0].args[0].a[0] is kvs, "not every -k argument is divided"):
            continue
        ctx.ob("-k: at the first =", sp[0].args[1].op == "c" and sp[0].args[1].a[1] in ("=", 61), "it is divided at %s" % show(sp[0].args[1], 2))
        pair = dfld(sp[0].ret, "Some")
        k, v = fld(pair, "0"), fld(pair, "1")
        if ctx.ob("-k: value parsed", len(pa) == 1, "the value is parsed %d times" % len(pa)):
            ctx.ob("-k: the value", pa[0].args[0] is v, "what is parsed is %s" % show(pa[0].args[0], 4)[:100], where(pa[0]))
            ins = [e for e in E.events if last(e.path) == "insert" and len(e.args) == 3]
            ins = [(e.args[1], e.args[2], e.guard) for e in ins]
            for e in E.events:
                if last(e.path) in ("push",) and len(e.args) == 2 and e.args[1].op == "tup":
                    ins.append((e.args[1].a[0], e.args[1].a[1], e.guard))
            coll = [x for x in subterms(r) if x.op == "coll"]
            for c in coll:
                ts = [x for x in subterms(c.a[1]) if x.op == "tup" and len(x.a) == 2]
                ins += [(t.a[0], t.a[1], c.a[2]) for t in ts[:1]]
            if ctx.ob("-k: defined", len(ins) == 1, "%d variables are defined by one argument" % len(ins)):
                kk, vv, g = ins[0]
                ctx.ob("-k: name and value", kk is k and vv is dfld(pa[0].ret, "Ok"), "%s is defined as %s" % (show(kk, 3)[:60], show(vv, 3)[:80]))
        bad = [l for l in leaves(assume(r, lambda a: "None" if a.op == "a.disc" and a.a[0] is sp[0].ret else ("Some" if a.op == "a.disc" and (a.a[0].op == "next" or a.a[0].op == "call" and last(a.a[0].a[0]) == "next") else None)))
               if l not in (DEAD, CONT)]
        ctx.ob("-k: without =", bool(bad) and all(l.op == "adt" and l.a[1] == "Err" for l in bad), "an argument without = is accepted")


def started(ctx):
    fs = ctx.fns(lambda g: g.name == "from_cli_args" and not g.closure)
    if len(fs) == 1:
        E = ctx.engine(opaque=lambda g: g.name == "try_from" and g.key.startswith("csvpp"))
        r = ctx.run(E, fs[0], [])
        tf = [e for e in E.events if last(e.path) == "try_from"]
        ps = [e for e in E.events if last(e.path) in ("parse", "try_parse") and e not in tf]
        ctx.ob("arguments: read and used", len(tf) == 1 and len(ps) == 1 and tf[0].args[0] is ps[0].ret and r is tf[0].ret and tf[0].guard is TRUE, "the program's arguments are not what configures the compiler")
    else:
        raise Missing("reading of the arguments")
    fs = ctx.fns(lambda g: g.name == "compilation_target" and not g.closure)
    if len(fs) != 1:
        raise Missing("the targets of outputs")
    f = fs[0]
    E = ctx.engine(opaque=lambda g: g.name == "new" and g.key.startswith("csvpp"))
    r = ctx.run(E, f, ["out", "compiler"])
    out = sym("out", f.locals[1])
    for v in ("Csv", "Excel", "OpenDocument", "GoogleSheets"):
        ns = [e for e in E.events if last(e.path) == "new" and assume(e.guard, lambda a: v if a.op == "a.disc" and a.a[0] is out else None) is not FALSE]
        if ctx.ob("target of " + v, len(ns) == 1 and "::%s" % v in ns[0].path, "the target is %s" % [e.path[-40:] for e in ns]):
            ctx.ob("target of %s: where" % v, ns[0].args[1] is dfld(out, v) and ns[0].args[0].op == "sym", "it writes to %s" % show(ns[0].args[1], 3)[:80])
            ls = [l for l in leaves(assume(r, lambda a: v if a.op == "a.disc" and a.a[0] is out else ("Ok" if a.op == "a.disc" and a.a[0] is ns[0].ret else None))) if l is not DEAD]
            ctx.ob("target of %s: used" % v, len(ls) == 1 and ls[0].op == "adt" and ls[0].a[1] == "Ok" and ls[0].a[2] in (ns[0].ret, dfld(ns[0].ret, "Ok")), "the target is %s" % [show(l, 3)[:80] for l in ls])
            g = ctx.fns(lambda h: h.name == "new" and not h.closure and h.path == ns[0].path.split("::<&")[0] or h.key == ns[0].path)
    for v, fd in (("Csv", "path"), ("Excel", "path"), ("GoogleSheets", "sheet_id")):
        gs = ctx.fns(lambda h: h.name == "new" and not h.closure and (h.self_ty or "").split("<")[0].endswith("::" + v) and "target" in (h.self_ty or ""))
        for g in gs:
            E = ctx.engine(opaque=lambda h: h.name in ("try_from", "read_json", "auth", "runtime"))
            r = ctx.run(E, g, ["compiler", "place"])
            ads = [x for x in subterms(r) if x.op == "adt" and x.a[0].split("<")[0].endswith("::" + v)]
            ctx.ob("target %s: its place" % v, bool(ads) and all(E.field(x, fd) is sym("place", g.locals[2]) and E.field(x, "compiler") is sym("compiler", g.locals[1]) for x in ads),
                   "the target's %s is %s" % (fd, [show(E.field(x, fd), 3)[:60] for x in ads][:2]))


def credentials(ctx):
    fs = ctx.fns(lambda g: g.name == "try_from" and not g.closure and (g.self_ty or "").endswith("Credentials"))
    if len(fs) != 1:
        raise Missing("the choice of credentials")
    f = fs[0]
    E = ctx.engine()
    r = ctx.run(E, f, ["compiler"])
    given_ = fld(sym("compiler", f.locals[1]), "config", "google_account_credentials")
    ev = [e for e in E.events if last(e.path) in ("var_os", "var") and e.args and ctext(e.args[0]) == "GOOGLE_APPLICATION_CREDENTIALS"]
    if not ctx.ob("credentials: environment", len({e.ret for e in ev}) == 1, "GOOGLE_APPLICATION_CREDENTIALS is not looked at"):
        return
    env = ev[0].ret
    for a in ("Some", "None"):
        for b in ("Some", "None"):
            for exists in (True, False):
                def ch(x):
                    if x.op == "a.disc" and x.a[0] is given_:
                        return a
                    if x.op == "a.disc" and x.a[0] is env:
                        return b
                    if x.op == "a.disc" and x.a[0].op == "call" and last(x.a[0].a[0]) == "home_dir":
                        return "Some"
                    if x.op == "a.val" and x.a[0].op == "call" and last(x.a[0].a[0]) in ("exists", "try_exists"):
                        return exists
                    return None
                ls = [l for l in dict.fromkeys(leaves(assume(assume(r, ch), ch))) if l is not DEAD]
                k = "credentials: %s" % ("given" if a == "Some" else "environment" if b == "Some" else "default") + ("" if exists else " (missing)")
                if not exists:
                    ctx.ob(k, bool(ls) and all(l.op == "adt" and l.a[1] == "Err" for l in ls), "a missing file is no error")
                    continue
                if not ctx.ob(k + ": accepted", len(ls) == 1 and ls[0].op == "adt" and ls[0].a[1] == "Ok", "the result is %s" % [show(l, 3)[:80] for l in ls][:2]):
                    continue
                got = E.field(ls[0].a[2], "file")
                if a == "Some":
                    ctx.ob(k, got is dfld(given_, "Some"), "the file is %s" % show(got, 4)[:100])
                elif b == "Some":
                    ctx.ob(k, got is dfld(env, "Some" if b == "Some" else b), "the file is %s" % show(got, 4)[:100])
                else:
                    ctx.ob(k, any(x.op == "call" and last(x.a[0]) == "home_dir" for x in subterms(got)) and
                           [ctext(x) for x in subterms(got) if x.op == "c"][::-1] and {"gcloud", "application_default_credentials.json"} <= {p for x in subterms(got) if x.op == "c" and isinstance(x.a[1], str) for p in x.a[1].split("/")},
                           "the file is %s" % show(got, 6)[:100])


def check(ctx):
    options(ctx)
    settings(ctx)
    variables(ctx)
    started(ctx)
    credentials(ctx)
    ctx.floor("obligations", len(ctx.obs), 150)
