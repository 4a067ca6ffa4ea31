"""C09: what a run changes outside itself: its output, the backup beside it and the object files; and nothing else."""
import re
from sa.terms import *
from sa.q import *
from sa.locks import Locks, last

TITLE = "A run changes nothing but its output, the backup and the object files"
RULE = ("Every reference to a function of another crate in every body of the program (calls and function values) is classified by its effect; "
        "the ones which change files, the environment, other processes or talk to the network must be one of the known kinds, and each site's "
        "target is evaluated from the program's own entry points: the object file name derived from the source's own name, the output's own "
        "path or sheet, or the backup routine. The rest of a run only computes and reads.")

# crates whose functions compute (or only write to the standard streams)
PURE = {"core", "alloc", "petgraph", "a1", "chrono", "log", "colored", "regex", "regex_automata", "regex_syntax", "semver", "serde", "serde_json", "serde_core",
        "rayon", "rayon_core", "clap", "clap_builder", "clap_derive", "clap_lex", "bincode", "google_apis_common", "home", "csv_core", "itertools", "either",
        "hashbrown", "memchr", "smallvec", "anstyle", "anstream", "mime", "http", "bytes", "futures", "futures_util", "futures_core"}
FS_READ = {"read", "read_to_string", "read_dir", "read_link", "metadata", "symlink_metadata", "canonicalize", "exists", "open", "modified", "accessed", "created", "len",
           "is_dir", "is_file", "is_symlink", "file_type", "permissions", "path", "file_name", "next", "fmt", "readonly", "by_ref", "as_ref", "read_to_end", "read_exact",
           "stream_position", "seek", "sync_all", "sync_data", "set_len", "flush", "write_all", "clone", "drop", "try_clone", "eq", "into"}
ENV_WRITE = {"set_var", "remove_var", "set_current_dir"}
SHEETS = {"batch_update"}


def crate(p):
    m = re.match(r"<?&?(?:mut )?(?:dyn )?([a-z_0-9]+)::", p)
    return m.group(1) if m else ""


def module(p):
    """std::fs::File::create -> fs"""
    m = re.search(r"\bstd::(?:\w+::)*?(fs|env|process|net|os)::", p)
    return m.group(1) if m else ""


def effect(p):
    """None: computes or reads; otherwise the kind of effect."""
    c, l = crate(p), last(p)
    whole = p
    if re.search(r"\bstd::net::|\bstd::os::\w+::net::", whole):
        return "network"
    if re.search(r"\bstd::os::(unix|linux|windows|wasi)::fs::", whole) and l in ("symlink", "chown", "fchown", "lchown", "chroot", "symlink_file", "symlink_dir", "write_at", "write_all_at", "mkfifo"):
        return "file:" + l
    if re.search(r"\bstd::fs::", whole):
        if l in FS_READ and "OpenOptions" not in whole or l == "write" and "io::Write" in whole:
            return None
        if "OpenOptions" in whole and l != "open":
            return None                       # what is opened counts
        return "file:" + l
    if re.search(r"\bstd::env::", whole):
        return "environment" if l in ENV_WRITE else None
    if re.search(r"\bstd::process::", whole):
        return None if l in ("exit", "abort", "id", "from", "report") else "process"
    if c == "std":
        return None
    if c in PURE or c == "":
        return None
    if c == "env_logger":
        return None
    if c == "tokio":
        return "network" if "::net::" in whole else ("process" if "::process::" in whole else ("file:tokio" if "::fs::" in whole else None))
    if c == "csv":
        if l == "from_path":
            return None if "Reader" in whole else "file:csv"
        return None
    if c == "umya_spreadsheet":
        return "file:xlsx" if re.search(r"::writer::", whole) else None
    if c in ("google_sheets4", "google_drive3"):
        if re.search(r"(Call|Hub|Methods|Sheets)\b", whole) or "::client" in whole:
            return "google"
        return None
    if c in ("yup_oauth2",):
        return "file:token" if re.search(r"persist|storage", whole) else "google"
    if c in ("hyper_rustls", "hyper_util", "hyper", "rustls"):
        return "google"
    if c == "umya_spreadsheet":
        return None
    return "unknown:" + c


def consts(x):
    """All function constants anywhere in a body's facts."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "p" in y and isinstance(y["p"], str) and ("fn" in y or "::" in y["p"]):
                yield y
            st.extend(y.values())
        elif isinstance(y, (list, tuple)):
            st.extend(y)


def external(F):
    out = []
    n = 0
    bodies = list(F.fns.values()) + [f for f in F.polys.values()]
    for f in bodies:
        if not f.local:
            continue
        for bi, b in enumerate(f.blocks):
            for d in consts(b):
                p = d.get("p", "")
                if re.match(r"<?(csvpp|csvp)\b", p):
                    continue
                n += 1
                k = effect(p)
                if k:
                    out.append((f, bi, p, k))
    return out, n


def reaching(F, L, keys):
    R = set(keys)
    more = True
    while more:
        more = False
        for k, cs in L.calls.items():
            if k not in R and any(c in R for _, (a, b) in cs for c in list(a) + list(b)):
                R.add(k)
                more = True
        for k in list(R):
            up = re.sub(r"::\{closure#\d+\}$", "", k)
            if up not in R and up in L.fns:
                R.add(up)
                more = True
    return R


def plain(key):
    """the function's path without its instantiation"""
    out, d = [], 0
    for ch in key.split("::{closure")[0]:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def source_name(t):
    """t is the name of a source's file: the filename field of a source code"""
    return t.op == "f" and t.a[-1] == "filename" or (t.op == "fld" and t.a[-1] == "filename")


def object_name(t):
    """The source's file name with its extension replaced by csvpo: the name of the source, or None."""
    b, e = None, None
    if t.op == "call" and last(t.a[0]) == "with_extension":
        b, e = t.a[1], t.a[2]
    elif t.op == "upd" and last(t.a[0]) == "set_extension":
        b, e = t.a[2], t.a[-1]
    if b is None or not (e.op == "c" and e.a[1] == "csvpo"):
        return None
    return b



def target_of(e):
    """the file an effect is applied to"""
    i = 1 if effect(e.path) in ("file:xlsx", "file:csv", "file:open") and len(e.args) > 1 else 0
    return e.args[i] if e.args else None


def told_apart(g, t, p):
    """The condition only holds if the object file's name isn't the source's own."""
    for x in subterms(g):
        if x.op != "gate":
            continue
        for c in subterms(x.a[0]):
            neq = "Ne" in str(c.a[0]) or str(c.a[0]).endswith("ne") if c.op in ("bin", "call") and c.a else False
            if c.op == "bin" and c.a[0] in ("Eq", "Ne") or c.op == "call" and last(c.a[0]) in ("eq", "ne", "eq_ignore_ascii_case"):
                us = set(y.id for y in subterms(c))
                names = t.id in us and p.id in us
                ext = any(y.op == "call" and last(y.a[0]) == "extension" and y.a[1] is p for y in subterms(c)) and any(y.op == "c" and y.a[1] == "csvpo" for y in subterms(c))
                if (names or ext) and implies(g, truth(c) if neq else b_not(truth(c))):
                    return True
    return False


def check(ctx):
    F = ctx.F
    sites, n = external(F)
    ctx.floor("references to functions of other crates", n, 500)
    KNOWN = ("google",)
    for f, bi, p, k in sites:
        if not (k in KNOWN or k.startswith("file:")):
            ctx.ob("effect:%s: %s in %s" % (k, last(p), plain(f.key)), False, "%s %s" % (plain(f.key), "calls " + p), f.span)
    L = Locks(F)
    R = reaching(F, L, {f.key for f, _, p, k in sites})
    G = reaching(F, L, {f.key for f, _, p, k in sites if k in KNOWN})
    done = set()

    def effects(E):
        done.update(E.seen_fns)
        return [(e, effect(e.path)) for e in E.events if e.guard is not FALSE and not re.match(r"<?(csvpp|csvp)\b", e.path) and effect(e.path)]

    def object_file(e, k):
        t = target_of(e)
        p = object_name(t) if last(e.path) in ("write", "create", "create_new", "remove_file", "open") and t is not None else None
        ctx.ob("writes:%s" % plain(e.fnkey), p is not None and source_name(p),
               "a file other than the object file named after the source is changed: %s %s" % (last(e.path), [show(a, 4)[:90] for a in e.args[:2]]), where(e))
        if p is not None:
            ctx.ob("not the source itself:%s" % plain(e.fnkey), told_apart(e.guard, t, p), "a source which is itself called .csvpo is overwritten", where(e))
        return p is not None

    # ---- compiling: nothing but object files
    main = ctx.fn("main", path="csvpp::main")
    E = ctx.engine(opaque=lambda g: g.key not in R and g.name not in ("object_code_filename",))
    ctx.run(E, main, [])
    done.add(main.key)
    objs = 0
    for e, k in effects(E):
        if k.startswith("file:"):
            objs += object_file(e, k)
    ctx.floor("object files written", objs, 1)

    # ---- the output which is asked for
    comp = ctx.fn("target", self_has="Compiler")
    E = ctx.engine()
    r = ctx.run(E, comp, ["self"])
    me = fld(sym("self", comp.locals[1]), "output")
    out = next(a for a in F.adts if a.endswith("output::Output"))
    for e, k in effects(E):
        if k in KNOWN:
            ctx.ob("only for Google:" + last(e.path), implies(only_true(e.guard), is_variant(me, out, "GoogleSheets")),
                   "%s is used although the output isn't a Google Sheet: %s" % (e.path, diff(only_true(e.guard), is_variant(me, out, "GoogleSheets"))), where(e))
        else:
            ctx.ob("writes:%s while the target is chosen" % last(e.path), False, "%s changes a file" % e.path, where(e))
    kinds = {}
    for v in [v[0] for v in F.adts[out]["variants"]]:
        t = assume(r, lambda a: v if a.op == "a.disc" and a.a[0] is me else None)
        t = lift("ok", lambda l: E.field(l, "0") if l.op == "adt" and l.a[1] == "Ok" else DEAD, t)
        ts = set()
        for x in leaves(t):
            if x.op == "adt":
                ts.add(x)
        kinds[v] = {x.a[0] for x in ts}
        for x in ts:
            p = E.field(x, "path") if any(n == "path" for n, _, _ in F.adts[x.a[0]]["variants"][0][2]) else None
            if p is not None:
                ctx.ob("path:%s" % v, p is dfld(me, v), "the path of a %s output is %s" % (v, show(p, 4)[:80]), comp.span)
    ctx.floor("targets", len(set().union(*kinds.values())), 3)

    # ---- the output is what was named on the command line
    f = ctx.fn("try_from", self_has="output::Output")
    E2 = ctx.engine()
    r = ctx.run(E2, f, ["args"])
    given_ = fld(sym("args", f.locals[1]), "output_filename")
    named = 0
    for x in subterms(r):
        if x.op == "adt" and x.a[0] == out and x.a[1] != "GoogleSheets":
            named += 1
            ctx.ob("output:%s is the one named" % x.a[1], x.a[2] is dfld(given_, "Some"), "the output is %s instead of the one named" % show(x.a[2], 4)[:90], f.span)
    ctx.floor("outputs named on the command line", named, 3)

    # ---- a source's name is the name of the file it was read from
    named = 0
    for g in ctx.fns(lambda g: not g.closure and g.trait is not None and g.name == "try_from" and (g.self_ty or "").endswith("source_code::SourceCode")):
        E2 = ctx.engine()
        r = ctx.run(E2, g, ["path"])
        for x in subterms(r):
            if x.op == "adt" and x.a[0].endswith("source_code::SourceCode"):
                named += 1
                nm = E2.field(x, "filename")
                rd = [e for e in E2.events if last(e.path) in ("read_to_string", "read", "open") and "fs::" in e.path]
                ctx.ob("source:its own name", bool(rd) and all(e.args[0] is nm for e in rd), "a source read from %s is called %s" %
                       ([show(e.args[0], 3)[:60] for e in rd], show(nm, 3)[:60]), g.span)
    ctx.floor("sources read", named, 1)

    # ---- writing the output: only its own file
    n = 0
    for g in ctx.fns(lambda g: not g.closure and g.trait is not None and g.trait.split("<")[0].endswith("CompilationTarget")):
        ty = next((t for v in kinds for t in kinds[v] if t.split("<")[0] == (g.self_ty or "").split("<")[0]), None)
        vs = {v for v in kinds if ty in kinds[v]}
        n += 1
        E = ctx.engine(opaque=lambda h: h.key not in R or "google" in h.path and h.key not in G)
        ctx.run(E, g, ["self", "module"][:g.nargs])
        me = fld(sym("self", g.locals[1]), "path")
        for e, k in effects(E):
            nm = "%s::%s: %s" % ((g.self_ty or "").split("<")[0].split("::")[-1], g.name, last(e.path))
            if k in KNOWN:
                ctx.ob("only for Google:" + nm, vs <= {"GoogleSheets"}, "%s is used for a %s output" % (e.path, sorted(vs)), where(e))
                continue
            if last(e.path) == "copy" and e.args and e.args[0] is me:
                continue                    # the backup; its name is the business of C08
            to = target_of(e)
            ctx.ob("writes:" + nm, to is me and "remove" not in e.path and "rename" not in e.path and last(e.path) != "set_permissions",
                   "%s is applied to %s" % (e.path, show(to, 4)[:90] if to is not None else "?"), where(e))
    ctx.floor("methods of the targets", n, 6)

    # ---- sites which no run of the above came to
    seen = {plain(k) for k in done}
    for f, bi, p, k in sites:
        if plain(f.key) in seen or k in KNOWN or f.poly:
            continue
        E = ctx.engine()
        ctx.run(E, f)
        for e, k2 in effects(E):
            if k2.startswith("file:"):
                object_file(e, k2)
    for f, bi, p, k in sites:
        if k == "google" and last(p) == "doit":
            ctx.ob("request:" + p, re.search(r"(SpreadsheetBatchUpdate|SpreadsheetGet|FileCopy)Call|Get\w*Call|List\w*Call", p) is not None, "an unknown request is made of Google", f.span)
