"""C08: a failed compilation writes nothing; with -b the untouched old output is copied aside before it is overwritten."""
from sa.terms import *
from sa.q import *

TITLE = "Output is only written after a complete compilation and, with --backup, after the backup"
RULE = ("The program's root is evaluated with the phases (configuration, compilation, target) as unknown results: the condition of every "
        "write must imply that all of them succeeded and, when a backup was asked for, that the backup succeeded; the backup routine's copy "
        "goes from the output path to a new, not yet existing name made of the stem, a timestamp and the extension in the same directory, and "
        "success is only reported when the copy succeeded.")


def pipeline(ctx):
    f = ctx.fn("main", path="csvpp::main")
    E = ctx.engine(opaque=lambda g: g.name in ("compile", "from_cli_args", "target"))
    ctx.run(E, f, [])
    ev = {}
    for k, suf in (("config", "from_cli_args"), ("compile", "Compiler::compile"), ("target", "Compiler::target"),
                   ("backup", "CompilationTarget>::write_backup"), ("write", "CompilationTarget>::write")):
        ev[k] = [e for e in E.events if e.path.endswith(suf)]
        ctx.ob("pipeline:one " + k, len(ev[k]) == 1, "%d calls of the %s step" % (len(ev[k]), k))
    if any(len(v) != 1 for v in ev.values()):
        return
    e = {k: v[0] for k, v in ev.items()}
    res = {k: x.ret for k, x in e.items()}
    asked = truth(fld(dfld(res["config"], "Ok"), "config", "backup"))
    ready = b_and(okd(res["config"]), b_and(okd(res["compile"]), okd(res["target"])))
    ctx.ob("pipeline:compile before writing", implies(e["write"].guard, ready), "the target is written although an earlier step failed", where(e["write"]))
    ctx.ob("pipeline:backup when asked", same_cond(e["backup"].guard, b_and(ready, asked))[0],
           "a backup must be made exactly when --backup was given: " + diff(only_true(e["backup"].guard), only_true(b_and(ready, asked))), where(e["backup"]))
    bk = ite(asked, okd(res["backup"]), TRUE)
    ctx.ob("pipeline:backup before writing", same_cond(e["write"].guard, b_and(ready, bk))[0],
           "the output must be written exactly when everything before it succeeded: " + diff(only_true(e["write"].guard), only_true(b_and(ready, bk))), where(e["write"]))
    ctx.ob("pipeline:order", E.events.index(e["backup"]) < E.events.index(e["write"]), "the backup must be made before the output is written", where(e["write"]))
    ctx.ob("pipeline:write what was compiled", e["write"].args[-1] is dfld(res["compile"], "Ok"), "the compiled module is not what is written", where(e["write"]))
    ctx.ob("pipeline:same target", e["write"].args[0] is e["backup"].args[0], "the backup and the write are of different targets", where(e["write"]))
    # failure is visible in the exit status
    allok = b_and(b_and(ready, bk), okd(res["write"]))
    ex = evs(E, "process::exit")
    g = FALSE
    for x in ex:
        ctx.ob("exit:nonzero", x.args[0].op == "c" and int(x.args[0].a[1]) != 0, "exit status %s" % show(x.args[0]), where(x))
        g = b_or(g, x.guard)
    ctx.ob("exit:failure", same_cond(g, b_not(allok))[0], "a failing step must end with a failing exit status: " + diff(only_true(g), only_true(b_not(allok))))


def routine(ctx):
    f = ctx.fn("backup_file")
    E = ctx.engine()
    r = ctx.run(E, f, ["compiler", "filename"])
    src = sym("filename", f.locals[2])
    cp = evs(E, "fs::copy")
    if not ctx.ob("backup:copied", len(cp) == 1, "%d copies are made" % len(cp)):
        return
    cp = cp[0]
    ctx.ob("backup:of the output", cp.args[0] is src, "what is copied is %s" % show(cp.args[0], 4)[:100], where(cp))
    dst = cp.args[1]
    ex = [e for e in E.events if e.path.split("::")[-1] in ("exists", "try_exists") and e.args and e.args[-1] is dst]
    ctx.ob("backup:new name", any(implies(cp.guard, b_not(truth(e.ret))) for e in ex),
           "the copy must only be made to a name that does not exist yet (an earlier backup would be overwritten)", where(cp))
    # the name
    pieces, seen = list(subterms(dst)), set(x.id for x in subterms(dst))
    for e in E.events:
        if e.path.split("::")[-1] in ("push", "set_extension", "set_file_name") and len(e.args) > 1 and (
                e.args[0].id in seen or any(y.op == "upd" and y.id in seen for y in subterms(e.args[0]))):
            ctx.ob("backup:name is complete", e.path.split("::")[-1] != "set_extension",
                   "set_extension cuts a stem that contains a dot", where(e))
            for a in e.args[1:]:
                pieces += list(subterms(a))
    have = {(x.a[0].split("::")[-1], x.a[1] if len(x.a) > 1 and isinstance(x.a[1], T) else None) for x in pieces if x.op == "call"}
    for what, names in (("directory", ("parent", "with_file_name")), ("stem", ("file_stem",)), ("extension", ("extension",))):
        ctx.ob("backup:name has the " + what, any((n, src) in have for n in names), "the backup's name does not use the %s of the output" % what, where(cp))
    fm = [x for x in pieces if x.op == "call" and x.a[0].split("::")[-1] == "format"]
    ctx.ob("backup:timestamp", bool(fm) and all(any(y.op == "call" and y.a[0].split("::")[-1] == "now" for y in subterms(x)) for x in fm),
           "the backup's name has no timestamp of now", where(cp))
    for x in fm:
        for y in subterms(x):
            if y.op == "c" and isinstance(y.a[1], str) and "%" in y.a[1]:
                ctx.ob("backup:timestamp stays in the directory", "/" not in y.a[1] and "D" not in y.a[1], "format " + y.a[1], where(cp))
    done = okd(cp.ret)
    ctx.ob("backup:success means copied", implies(only_true(okd(r)), b_and(cp.guard, done)) or implies(only_true(okd(r)), done),
           "the backup reports success without a successful copy: " + diff(only_true(okd(r)), only_true(b_and(okd(r), done))), where(cp))


def sheets(ctx, f):
    """the sheet that is copied is the one written; success means both requests were answered with success"""
    me = fld(sym("self", f.locals[1]), "sheet_id")
    for g, call in ((f, "FileMethods::copy"), (ctx.fn("write", self_has="::GoogleSheets"), "SpreadsheetMethods::batch_update")):
        E = ctx.engine(opaque=lambda g: g.name in ("build", "sheets_hub", "drive_hub", "read_existing_cells") and g.local)
        r = ctx.run(E, g, ["self", "module"][:g.nargs])
        cs = evs(E, call)
        aw = [e for e in E.events if e.path == "await" and e.args[0].op == "call" and e.args[0].a[0].endswith("::doit") and
              any(x is c.ret for c in cs for x in subterms(e.args[0]))]
        k = "sheet:" + g.name
        if not ctx.ob(k, len(cs) == 1 and len(aw) == 1, "the %s request is not sent exactly once" % call):
            continue
        ctx.ob(k + " id", me in cs[0].args, "the request is about another sheet", where(cs[0]))
        ctx.ob(k + " reported", must_stop(E, r, aw[0]) and implies(only_true(okd(r)), aw[0].guard) and satisfiable(okd(r)),
               "success is reported although the request failed or was not sent: " + diff(only_true(okd(r)), only_true(aw[0].guard)), where(aw[0]))
        for e in E.events:
            if e.path == "await" and e.guard is not FALSE and (e.rty or "").startswith("core::result::Result"):
                ctx.ob("%s step %s" % (k, show(e.args[0], 2)[:60]), must_stop(E, r, e), "an error of this step is swallowed", where(e))


def targets(ctx):
    n = 0
    for f in ctx.fns(lambda f: f.name == "write_backup" and f.trait is not None and not f.closure):
        n += 1
        kind = f.key.split(" for ")[-1].split("<")[0].split("::")[-1].strip(">") if " for " in f.key else f.self_ty
        kind = (f.self_ty or f.key).split("<")[0].split("::")[-1]
        E = ctx.engine(opaque=lambda g: g.name in ("backup_file", "backup_sheet"))
        r = ctx.run(E, f, ["self"])
        bs = evs(E, *["file_backer_upper::backup_file"]) or [e for e in E.events if "::backup_file" in e.path]
        if kind == "GoogleSheets":
            sheets(ctx, f)
            continue
        if not ctx.ob("backup:" + kind, len(bs) == 1 and bs[0].guard is TRUE, "%s does not back its file up" % kind):
            continue
        ctx.ob("backup:%s own file" % kind, bs[0].args[1] is fld(sym("self", f.locals[1]), "path"), "%s backs up %s" % (kind, show(bs[0].args[1], 3)), where(bs[0]))
        ctx.ob("backup:%s failure" % kind, same_cond(okd(r), okd(bs[0].ret))[0], "a failed backup of %s is not reported" % kind, where(bs[0]))
    ctx.floor("targets", n, 3)


def writers(ctx):
    """where the file targets write is the path they back up"""
    n = 0
    for f in ctx.fns(lambda f: f.name == "write" and f.trait is not None and f.trait.endswith("CompilationTarget") and not f.closure):
        kind = (f.self_ty or f.key).split("<")[0].split("::")[-1]
        if kind not in ("Csv", "Excel"):
            continue
        n += 1
        E = ctx.engine()
        ctx.run(E, f, ["self", "module"])
        want = fld(sym("self", f.locals[1]), "path")
        ps = [e for e in E.events if e.path.split("<")[0].rsplit("::", 1)[-1] in ("write", "from_path", "create") and
              any(k in e.path for k in ("umya_spreadsheet::writer", "csv::writer", "fs::File", "std::fs"))]
        ctx.ob("write:%s to its path" % kind, bool(ps) and all(want in e.args for e in ps),
               "%s writes to %s" % (kind, [show(a, 3)[:60] for e in ps for a in e.args][:4]), where(ps[0]) if ps else "")
    ctx.floor("writers", n, 2)


def check(ctx):
    pipeline(ctx)
    routine(ctx)
    targets(ctx)
    writers(ctx)
