"""C14: the same sources give the same result, every time."""
import re

from sa import locks
from sa.locks import last, local_of
from sa.order import HASHED, Order, path, succ
from checks.c12 import line

TITLE = "Compiling the same sources twice gives the same result"
RULE = ("Every use of elements which come in no particular order (hash maps and sets, directories, channels, parallel iterators) is followed: they may be collected into keyed or sorted collections, "
        "counted, tested for any or all, or be visited by a loop whose iterations commute - keyed insertions under the element itself, constant or additive updates, no early end with one of them. What threads share "
        "is keyed. Types with hash collections are printed to logs only, no clock, random number or thread identity is read besides for the names of backups.")
CLOCK = re.compile(r"(SystemTime|Instant|Local|Utc)(::<.*>)?::now$|^rand::|::thread_rng$|rngs::|thread::current$|ThreadId|process::id$|RandomState.*(build_hasher|hash_one)|current_num_threads$|available_parallelism$|current_thread_index$|fastrand|getrandom|Uuid")


def shows(ty, debug, name):
    """is a value of type name printed with a ty?"""
    ty = re.sub(r"(?:\w+::)*PoisonError<.*>", "PoisonError", ty)
    if not debug:
        while True:
            m = re.match(r"(?:\w+::)*(?:Box|Rc|Arc|Cow|Ref|RefMut|RwLockReadGuard|RwLockWriteGuard|MutexGuard)<(?:'\w+, )?(.*)>$", ty)
            if not m:
                break
            ty = m.group(1).lstrip("&")
        return re.sub(r"<.*", "", ty) == name
    return re.search(r"(?<![\w:])%s(?![\w])" % re.escape(name), ty) is not None


def logged_types(F, L, fns):
    """local types which are printed to something else than a log, and the functions which print them"""
    hot, todo = set(), []
    sites = 0

    def shown(ty):
        return re.sub(r"^(?:&(?:'\w+ )?(?:mut )?)+", "", ty)
    impls = {}
    for f in fns.values():
        if f.trait and f.trait.split("<")[0].endswith(("fmt::Display", "fmt::Debug")) and f.name == "fmt":
            impls.setdefault(re.sub(r"<.*", "", f.self_ty or ""), []).append(f)
    printing = {f.key for fs in impls.values() for f in fs}
    queue = []
    for f in fns.values():
        if f.key in printing:
            continue
        for bi, b in enumerate(f.blocks):
            t = b[1]
            if t[0] == "call" and not b[2]:
                queue += [(f, bi, x) for x in printed(f, bi, t)]
    out = []
    while queue:
        f, bi, ty = queue.pop()
        debug, ty = ty[:1] == "?", shown(ty.lstrip("?"))
        sites += 1
        if (debug, ty) in hot:
            continue
        hot.add((debug, ty))
        out.append((f, bi, ty, debug))
        todo = [ty]
        for name, gs in impls.items():
            if name and shows(ty, debug, name):
                for g in gs:
                    for b2, b in enumerate(g.blocks):
                        t = b[1]
                        if t[0] == "call" and not b[2]:
                            queue += [(g, b2, x) for x in printed(g, b2, t, inside=True)]
    keys = set()
    for _, _, ty, debug in out:
        for name, gs in impls.items():
            if name and shows(ty, debug, name):
                keys |= {g.key for g in gs}
    return out, keys, printing, sites


def printed(f, bi, t, inside=False):
    n, p = last(path(t)), path(t)
    if n in ("new_display", "new_debug") and "fmt" in p:
        if not inside and to_log(f, bi):
            return []
        return [("?" if n == "new_debug" else "") + t[2][0][1]]
    if n == "to_string" and t[2]:
        return [t[2][0][1]]
    if n == "fmt" and inside and t[2]:
        return [t[2][0][1]]
    if n in ("entries", "entry", "field", "debug_tuple_field1_finish") and inside:
        return [a[1] for a in t[2][1:] if len(a) > 1]
    return []


def to_log(f, bi):
    """does what is formatted here end in a log?"""
    seen, todo = set(), list(succ(f.blocks[bi]))
    res = []
    while todo:
        b = todo.pop()
        if b in seen or b is None or f.blocks[b][2]:
            continue
        seen.add(b)
        t = f.blocks[b][1]
        if t[0] == "call" and any("fmt::Arguments" in a[1] for a in t[2] if len(a) > 1):
            res.append("log::" in path(t))
            continue
        if t[0] == "call" and last(path(t)) in ("new_display", "new_debug") or True:
            todo += succ(f.blocks[b])
    return bool(res) and all(res)


def check(ctx):
    F = ctx.F
    L = locks.Locks(F)
    O = Order(F, L)
    for f in O.fns.values():
        ctx.analysed.add(f.key)
    shown, keys, printing, sites = logged_types(F, L, O.fns)

    def logged(f):
        return f.key in printing and f.key not in keys
    O.run(logged)
    n, R = O.threads()
    ctx.floor("uses of elements without an order", len(O.sites), 8)
    ctx.floor("functions which run in threads", len(R), 10)
    ctx.floor("values which are printed", sites, 20)
    ctx.counts["loops"] = O.loops
    ctx.counts["exclusive accesses of threads"] = n
    for f, bi, m in O.sites:
        ctx.ob("used:%s:%s" % (f.key, m), True)
    seen = set()
    for f, bi, m in O.bad:
        if (f.key, m) not in seen:
            seen.add((f.key, m))
            ctx.ob("order:%s:%s" % (f.key, m), False, m, line(f, bi))
    hashes = hashy(F)
    for f, bi, ty, debug in shown:
        derived = [x for x in hashes if debug and shows(ty, True, x)]
        bad = debug and HASHED.search(re.sub(r"PoisonError<.*>", "", ty)) is not None or any(derived_debug(O, x) for x in derived)
        ctx.ob("printed:%s" % ty[:120], not bad, "a %s is printed, in an arbitrary order" % ty.split("::")[-1][:60], line(f, bi))
    clock(ctx, O, L)
    ctx.notes += O.notes


def hashy(F):
    out = set()
    ch = True
    while ch:
        ch = False
        for k, j in F.adts.items():
            if k in out or not k.startswith(("csvpp", "csvp")):
                continue
            s = str(j.get("variants"))
            if HASHED.search(s) or any(re.search(r"(?<![\w:])%s(?![\w])" % re.escape(x), s) for x in out):
                out.add(k)
                ch = True
    return out


def derived_debug(O, name):
    """the printed type shows its fields the derived way"""
    return any(g.derive and g.trait and g.trait.endswith("fmt::Debug") and re.sub(r"<.*", "", g.self_ty or "") == name for g in O.fns.values()) and \
        not any(not g.derive and g.name == "fmt" and g.trait and g.trait.endswith("fmt::Display") and re.sub(r"<.*", "", g.self_ty or "") == name for g in O.fns.values())


def clock(ctx, O, L):
    cut = {k for k, f in O.fns.items() if f.name == "write_backup" or f.name == "backup" or "backup" in f.name}
    roots = [k for k, f in O.fns.items() if k not in cut]
    # everything which is not only reached through the backups
    callers = {}
    for k, f in O.fns.items():
        for bi, (cs, clos) in L.calls[k]:
            for c in list(cs) + list(clos):
                callers.setdefault(c, set()).add(k)
    n = 0
    for k, f in O.fns.items():
        for bi, b in enumerate(f.blocks):
            t = b[1]
            if t[0] != "call" or b[2]:
                continue
            fn = t[1][1] if t[1][0] == "k" else {}
            if not (CLOCK.search(path(t)) or CLOCK.search(fn.get("raw", ""))):
                continue
            n += 1
            # who can get here without a backup?
            seen, todo, free = set(), [k], False
            while todo and not free:
                x = todo.pop()
                if x in seen or x in cut:
                    continue
                seen.add(x)
                free = not callers.get(x)
                todo += list(callers.get(x, ()))
            ctx.ob("input:%s" % k, not free, "%s differs from run to run" % last(path(t)), line(f, bi))
    ctx.counts["clocks"] = n
