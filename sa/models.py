"""Meaning of the library calls that matter for value flow (names are library API, not repository text)."""
import re
from .terms import *
from .eng import MODELS, model, empty_coll, strip_generics, LOCAL

STRS = ("str", "alloc::string::String", "&str", "&alloc::string::String", "&&str", "alloc::borrow::Cow<'_, str>", "&mut alloc::string::String", "&&alloc::string::String", "alloc::boxed::Box<str>")


def dispty(t):
    """References and boxes print like what they point to."""
    while True:
        u = t[5:] if t.startswith("&mut ") else t[1:] if t.startswith("&") else t
        if u.startswith("alloc::boxed::Box<") and u.endswith(">"):
            u = u[18:-1]
        if u == t:
            return "str" if t in ("alloc::string::String", "alloc::borrow::Cow<'_, str>") else t
        t = u


def reg(names, h):
    for n in names.split():
        MODELS[n] = h


# ---- transparent: the result denotes the same value / the same reference
def ident(E, f, raw, args, tys, dty, st, G, span):
    return args[0]


def ident_val(E, f, raw, args, tys, dty, st, G, span):
    return E.behind(args[0], st) if tys and tys[0].startswith("&") else E.val(args[0], st)


reg("""core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut core::convert::AsRef::as_ref core::convert::AsMut::as_mut
core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut alloc::string::String::as_str alloc::string::String::as_mut_str
alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice core::option::Option::as_ref core::option::Option::as_mut
core::option::Option::as_deref core::option::Option::as_deref_mut core::option::Option::cloned core::option::Option::copied
core::result::Result::as_ref core::result::Result::as_mut core::result::Result::as_deref core::pin::Pin::new
std::path::PathBuf::as_path std::path::Path::new std::path::Path::to_path_buf std::path::Path::as_os_str
std::ffi::os_str::OsStr::new alloc::string::String::into_boxed_str alloc::boxed::Box::new alloc::sync::Arc::new alloc::rc::Rc::new
core::iter::traits::iterator::Iterator::by_ref
core::iter::traits::iterator::Iterator::peekable core::iter::traits::iterator::Iterator::fuse
core::iter::traits::iterator::Iterator::cloned core::iter::traits::iterator::Iterator::copied
core::hint::black_box core::hint::must_use alloc::fmt::format core::fmt::Arguments::as_str
core::mem::ManuallyDrop::new core::convert::identity std::ffi::os_str::OsStr::to_os_string std::ffi::os_str::OsStr::to_string_lossy std::path::Path::to_string_lossy
alloc::borrow::Cow::into_owned std::sync::poison::mutex::Mutex::new std::sync::poison::rwlock::RwLock::new
core::ptr::non_null::NonNull::as_ptr core::ptr::non_null::NonNull::as_ref std::path::PathBuf::into_os_string alloc::rc::Rc::clone alloc::sync::Arc::clone
core::iter::traits::iterator::Iterator::into_iter core::slice::iter::Iter::as_slice""", ident)
for n in ("*::iter", "*::iter_mut", "*::par_iter", "*::into_par_iter", "*::par_iter_mut", "*::par_bridge", "*::as_mut_slice", "*::as_slice", "*::drain_all"):
    MODELS[n] = ident

def seen_through(E, f, raw, args, tys, dty, st, G, span):
    """an iterator over something shared: over what it is now, nothing can change it meanwhile"""
    if tys and tys[0].startswith("&") and not re.match(r"&('\w+ )?mut ", tys[0]) and args[0].op == "ref":
        return E.behind(args[0], st)
    return args[0]


MODELS["core::iter::traits::collect::IntoIterator::into_iter"] = MODELS["*::iter"] = seen_through
reg("""core::clone::Clone::clone alloc::borrow::ToOwned::to_owned alloc::slice::to_vec *::to_owned *::to_vec *::into_vec
alloc::str::into_string alloc::slice::into_vec""", ident_val)


# ---- async: a future is a closure; awaiting it runs it to completion
reg("core::future::into_future::IntoFuture::into_future core::pin::Pin::new_unchecked core::future::get_context", ident)


def awaited(E, ref, dty, st, G, span):
    v = E.val(ref, st)
    if v.op == "clo":
        return E.call_closure(ref, v, [UNIT], dty, st, G, span)
    ra = E.resolve(v, st)
    r = mk("call", "await", ra)
    E.event("call", "await", "await", [ra], r, G, span, ()).rty = dty
    return r, TRUE


@model("core::future::future::Future::poll")
def poll(E, f, raw, args, tys, dty, st, G, span):
    i = dty.find("Poll<")
    r, c = awaited(E, args[0], dty[i + 5:-1] if i >= 0 else dty, st, G, span)
    return mk("adt", "core::task::poll::Poll", "Ready", r), c


@model("*::block_on")
def block_on(E, f, raw, args, tys, dty, st, G, span):
    return awaited(E, args[1], dty, st, G, span)


@model("core::clone::Clone::clone_from")
def clone_from(E, f, raw, args, tys, dty, st, G, span):
    E.update(st, args[0], (("*",),), E.val(args[1], st))
    return UNIT


@model("alloc::string::ToString::to_string")
def to_string(E, f, raw, args, tys, dty, st, G, span):
    v = E.val(args[0], st)
    t = f.a[3][0] if f.a[3] else ""
    if t in STRS or v.op == "fmt" or (v.op == "c" and v.a[0] == "s"):
        return E.resolve(v, st)
    return fmt_join([mk("disp", "Display", dispty(t), E.resolve(v, st))])


@model("core::convert::From::from", "core::convert::Into::into")
def conv(E, f, raw, args, tys, dty, st, G, span):
    if f.a[4] in LOCAL:
        return NotImplemented
    if f.a[0] in E.F.fns and raw.endswith("into"):
        return NotImplemented
    t = tys[0] if tys else ""
    simple = ("bool", "char", "&str", "&alloc::string::String", "alloc::string::String", "std::path::PathBuf", "&std::path::Path", "std::ffi::os_str::OsString",
              "u8", "u16", "u32", "i32", "i64", "u64", "usize", "f64", "f32", "alloc::boxed::Box<str>", "&std::path::PathBuf")
    key = f.a[0]
    if t in simple or dty == t or "PathBuf as" in key or "String as" in key or dty.startswith(("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc")):
        return E.val(args[0], st)
    if f.a[0] in E.F.fns:
        return NotImplemented
    return NotImplemented


@model("core::str::traits::FromStr::from_str", "core::str::parse", "core::str::<impl str>::parse")
def parse(E, f, raw, args, tys, dty, st, G, span):
    if f.a[4] in LOCAL:
        return NotImplemented
    v = E.resolve(E.val(args[0], st), st)
    r = mk("call", "parse", v, mk("k", "ty", dty))
    E.event("call", "parse", raw, [v], r, G, span, f.a[3])
    return r


# ---- equality / emptiness / length
@model("core::cmp::PartialEq::eq")
def peq(E, f, raw, args, tys, dty, st, G, span):
    fn = E.F.fns.get(f.a[0])
    if fn is not None and fn.local and not fn.derive:
        return NotImplemented
    return E.eq(args[0], args[1], st)


@model("core::cmp::PartialEq::ne")
def pne(E, f, raw, args, tys, dty, st, G, span):
    fn = E.F.fns.get(f.a[0])
    if fn is not None and fn.local and not fn.derive:
        return NotImplemented
    t = f.a[3][0] if f.a[3] else ""
    for g in E.F.fns.values():
        if g.local and not g.derive and g.name == "eq" and g.self_ty == t.lstrip("&") and g.trait and "PartialEq" in g.trait:
            r, rc = E.inline(g, args, tys, dty, st, G, span, g.key)
            return b_not(boolify(r)), rc
    return b_not(E.eq(args[0], args[1], st))


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def pord(E, f, raw, args, tys, dty, st, G, span):
    if f.a[4] in LOCAL:
        return NotImplemented
    a, b = E.resolve(E.val(args[0], st), st), E.resolve(E.val(args[1], st), st)
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[raw[-2:]]
    return E.binop(op, a, b, "", st)


@model("*::len")
def length(E, f, raw, args, tys, dty, st, G, span):
    return E.length(E.resolve(E.val(args[0], st), st))


@model("core::slice::<impl [T]>::get")
def sget(E, f, raw, args, tys, dty, st, G, span):
    i = E.resolve(E.val(args[1], st), st)

    def g(x):
        if x.op in ("dead", "cont"):
            return x
        if x.op == "arr" and 0 < len(x.a) <= 40 and i.op not in ("gate", "adt", "pos"):
            return some(x.a[i.a[1]]) if i.op == "c" and i.a[1] < len(x.a) else NONE if i.op == "c" else mk_gate(atom_val(i), {k: some(y) for k, y in enumerate(x.a)}, NONE)
        return mk("adt", "core::option::Option", "None") if empty_coll(x) else mk("call", "sget", x, i)
    return lift(None, g, E.resolve(E.val(args[0], st), st))


@model("*::is_empty")
def is_empty(E, f, raw, args, tys, dty, st, G, span):
    return E.eqt(E.length(E.resolve(E.val(args[0], st), st)), c_int(0))


@model("core::intrinsics::discriminant_value", "core::mem::discriminant")
def discval(E, f, raw, args, tys, dty, st, G, span):
    t = f.a[3][0] if f.a[3] else ""
    t = t.split("<")[0]
    v = E.val(args[0], st)
    return lift(None, lambda x: x if x.op in ("dead", "cont") else mk("discr", x, t if t in E.F.adts else None), v)


# ---- memory
@model("core::mem::take")
def mtake(E, f, raw, args, tys, dty, st, G, span):
    v = E.val(args[0], st)
    t = f.a[3][0] if f.a[3] else ""
    E.update(st, args[0], (("*",),), default_of(E, t))
    return v


def default_of(E, t):
    if t.startswith("core::option::Option"):
        return mk("adt", "core::option::Option", "None")
    if t == "bool":
        return FALSE
    if t in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize"):
        return c_int(0)
    if t == "alloc::string::String":
        return c_str("")
    if t.startswith("(") and t.endswith(")"):
        return mk("tup", *[default_of(E, x) for x in split_types(t[1:-1])])
    return mk("call", "default", mk("k", "ty", t))


def split_types(t):
    out, d, cur = [], 0, ""
    for i, ch in enumerate(t):
        d += ch in "<([" and 1 or 0
        d -= ch in ")]" or ch == ">" and t[i - 1] != "-"
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


@model("core::default::Default::default")
def default(E, f, raw, args, tys, dty, st, G, span):
    if f.a[4] in LOCAL:
        return NotImplemented
    return default_of(E, dty)


@model("alloc::string::String::new")
def snew(E, f, raw, args, tys, dty, st, G, span):
    return c_str("")


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "std::collections::hash::map::HashMap::new", "std::collections::hash::set::HashSet::new", "std::collections::hash::map::HashMap::with_capacity", "std::collections::hash::set::HashSet::with_capacity")
def vnew(E, f, raw, args, tys, dty, st, G, span):
    return mk("call", "default", mk("k", "ty", dty))


@model("core::option::Option::take")
def otake(E, f, raw, args, tys, dty, st, G, span):
    v = E.val(args[0], st)
    E.update(st, args[0], (("*",),), mk("adt", "core::option::Option", "None"))
    return v


@model("core::mem::replace", "core::option::Option::replace")
def mreplace(E, f, raw, args, tys, dty, st, G, span):
    v = E.val(args[0], st)
    n = args[1] if raw.startswith("core::mem") else mk("adt", "core::option::Option", "Some", args[1])
    E.update(st, args[0], (("*",),), n)
    return v


@model("core::option::Option::insert", "core::option::Option::get_or_insert", "core::option::Option::get_or_insert_with")
def oinsert(E, f, raw, args, tys, dty, st, G, span):
    if raw.endswith("::insert"):
        E.update(st, args[0], (("*",),), mk("adt", "core::option::Option", "Some", args[1]))
        return E.project(E.project(args[0], ("v", "Some"), st), ("f", "0"), st)
    return NotImplemented


@model("core::mem::swap")
def mswap(E, f, raw, args, tys, dty, st, G, span):
    a, b = E.val(args[0], st), E.val(args[1], st)
    E.update(st, args[0], (("*",),), b)
    E.update(st, args[1], (("*",),), a)
    return UNIT


@model("alloc::boxed::Box::new_uninit", "alloc::boxed::box_new_uninit")
def new_uninit(E, f, raw, args, tys, dty, st, G, span):
    return E.fresh("box")


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def assume_init(E, f, raw, args, tys, dty, st, G, span):
    v = st.get(args[0], args[0])
    return E.field(E.field(v, "value"), "value")


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(E, f, raw, args, tys, dty, st, G, span):
    if f.a[4] in LOCAL:
        return NotImplemented
    i = E.resolve(E.val(args[1], st), st)
    base = E.val(args[0], st)
    E.event("index", raw, raw, [E.resolve(base, st), i], UNIT, G, span, f.a[3])
    if raw.endswith("index_mut"):
        return E.reref(args[0], (("ix", i),), st)
    return E.index(base, i)


@model("core::str::<impl str>::split_at", "core::slice::<impl [T]>::split_at")
def split_at(E, f, raw, args, tys, dty, st, G, span):
    base = E.val(args[0], st)
    n = E.val(args[1], st)
    E.event("index", raw, raw, [E.resolve(base, st), n], UNIT, G, span, f.a[3])
    return mk("tup", E.index(base, mk("adt", "core::ops::range::RangeTo", "RangeTo", n)),
              E.index(base, mk("adt", "core::ops::range::RangeFrom", "RangeFrom", n)))


# ---- formatting
def fmt_join(parts):
    out = []
    for p in parts:
        if p.op == "fmt":
            q = list(p.a)
        elif p.op == "disp" and p.a[0] == "Display" and (p.a[1] in STRS or (p.a[2].op == "c" and p.a[2].a[0] == "s")) or (p.op == "disp" and p.a[0] == "Display" and p.a[2].op == "fmt"):
            x = p.a[2]
            if x.op == "c" and x.a[0] == "s":
                q = [x]
            elif x.op == "fmt":
                q = list(x.a)
            else:
                q = [mk("disp", "Display", "str", x)]
        else:
            q = [p]
        for y in q:
            if y.op == "c" and y.a[0] == "s":
                if y.a[1] == "":
                    continue
                if out and out[-1].op == "c":
                    out[-1] = c_str(out[-1].a[1] + y.a[1])
                    continue
            out.append(y)
    if not out:
        return c_str("")
    if len(out) == 1 and out[0].op == "c":
        return out[0]
    if len(out) == 1 and out[0].op == "disp" and out[0].a[0] == "Display" and out[0].a[1] in STRS:
        return out[0].a[2]
    return mk("fmt", *out)


def _argument(kind):
    def h(E, f, raw, args, tys, dty, st, G, span):
        t = f.a[3][-1] if f.a[3] else ""
        return mk("disp", kind, dispty(t), E.resolve(E.val(args[0], st), st))
    return h


for _k in ("display", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "binary", "octal", "pointer"):
    MODELS["core::fmt::rt::Argument::new_" + _k] = _argument("".join(x.capitalize() for x in _k.split("_")))


@model("core::fmt::Arguments::new", "core::fmt::rt::<impl core::fmt::Arguments<'_>>::new", "core::fmt::rt::<impl core::fmt::Arguments<'a>>::new")
def arguments_new(E, f, raw, args, tys, dty, st, G, span):
    tpl = E.val(args[0], st)
    av = E.resolve(E.val(args[1], st), st)
    if tpl.op != "c" or tpl.a[0] != "by" or av.op != "arr":
        return mk("call", "fmt?", tpl, av)
    b = tpl.a[1]
    i = 0
    n = 0
    parts = []
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            parts.append(c_str(b[i:i + x].decode("utf-8", "replace")))
            i += x
        elif x == 0x80:
            l = b[i] | b[i + 1] << 8
            parts.append(c_str(b[i + 2:i + 2 + l].decode("utf-8", "replace")))
            i += 2 + l
        else:
            spec = []
            if x & 1:
                spec.append("f%x" % int.from_bytes(b[i:i + 4], "little")); i += 4
            if x & 2:
                spec.append("w%d" % int.from_bytes(b[i:i + 2], "little")); i += 2
            if x & 4:
                spec.append("p%d" % int.from_bytes(b[i:i + 2], "little")); i += 2
            if x & 8:
                n = int.from_bytes(b[i:i + 2], "little"); i += 2
            a = av.a[n] if n < len(av.a) else UNDEF
            n += 1
            if spec and a.op == "disp":
                a = mk("disp", a.a[0] + ":" + ",".join(spec), a.a[1], a.a[2])
            parts.append(a)
    return fmt_join(parts)


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::rt::<impl core::fmt::Arguments<'_>>::from_str", "core::fmt::Arguments::from_str_nonconst")
def arguments_const(E, f, raw, args, tys, dty, st, G, span):
    v = E.val(args[0], st)
    if v.op == "arr":
        return fmt_join([E.val(x, st) for x in v.a])
    return v


def written(E, sink, v, st):
    """what the sink holds after v was written to it"""
    cur = lift(None, lambda x: mk("fmt") if x.op == "sym" else x, E.behind(sink, st))
    text = lambda a, ops: a if a.op in ops + ("dead", "cont") else mk("disp", "Display", "str", a)
    join = lambda a, b: a if a.op in ("dead", "cont") else b if b.op in ("dead", "cont") else fmt_join([text(a, ("fmt", "c")), text(b, ("fmt", "c", "disp"))])
    return lift(None, join, cur, v)


@model("core::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_str", "core::fmt::Write::write_str", "core::fmt::Write::write_fmt", "core::fmt::Write::write_char", "core::fmt::Formatter::write_char", "core::fmt::Formatter::pad")
def fwrite(E, f, raw, args, tys, dty, st, G, span):
    if f.a[4] in LOCAL:
        return NotImplemented
    v = E.resolve(E.val(args[1], st), st)
    sink = E.val(args[0], st)
    if raw.endswith("write_char"):
        v = mk("disp", "Display", "char", v) if v.op != "c" else c_str(chr(v.a[1]))
    E.event("fmtwrite", raw, raw, [E.resolve(sink, st), v], UNIT, G, span, ())
    E.update(st, args[0], (("*",),), written(E, args[0], v, st))
    return mk("adt", "core::result::Result", "Ok", UNIT)


@model("core::fmt::Display::fmt", "core::fmt::Debug::fmt")
def dfmt(E, f, raw, args, tys, dty, st, G, span):
    fn = E.F.fns.get(f.a[0])
    if fn is not None and fn.local and not fn.derive and E.stack.count(fn.key) < 1:
        return NotImplemented
    t = f.a[3][0] if f.a[3] else ""
    v = E.resolve(E.val(args[0], st), st)
    d = fmt_join([mk("disp", raw.split("::")[2], dispty(t), v)])
    sink = E.val(args[1], st)
    E.event("fmtwrite", raw, raw, [E.resolve(sink, st), d], UNIT, G, span, ())
    E.update(st, args[1], (("*",),), written(E, args[1], d, st))
    return mk("adt", "core::result::Result", "Ok", UNIT)


@model("alloc::string::String::push_str", "alloc::string::String::push")
def push_str(E, f, raw, args, tys, dty, st, G, span):
    v = E.resolve(E.val(args[1], st), st)
    if raw.endswith("push"):
        v = mk("disp", "Display", "char", v) if v.op != "c" else c_str(chr(v.a[1]))
    elif v.op not in ("c", "fmt", "gate"):
        v = mk("disp", "Display", "str", v)
    cur = E.val(args[0], st)
    E.event("call", raw, raw, [E.resolve(cur, st), v], UNIT, G, span, ())
    new = lift(None, lambda a, b: fmt_join([a if a.op in ("fmt", "c") else mk("disp", "Display", "str", a), b if b.op in ("fmt", "c", "disp") else mk("disp", "Display", "str", b)]), cur, v)
    E.update(st, args[0], (("*",),), new)
    return UNIT


@model("core::ops::arith::Add::add")
def sadd(E, f, raw, args, tys, dty, st, G, span):
    if f.a[4] in LOCAL:
        return NotImplemented
    if dty == "alloc::string::String":
        a, b = E.resolve(E.val(args[0], st), st), E.resolve(E.val(args[1], st), st)
        w = lambda x: x if x.op in ("fmt", "c", "disp") else mk("disp", "Display", "str", x)
        return lift(None, lambda a, b: fmt_join([w(a), w(b)]), a, b)
    return E.arith("Add", E.val(args[0], st), E.val(args[1], st))


# ---- logging: no effect on behaviour
@model("log::max_level", "log::__private_api::enabled")
def logl(E, f, raw, args, tys, dty, st, G, span):
    return mk("k", "loglevel", "")


@model("log::__private_api::log", "log::__private_api::loc")
def loge(E, f, raw, args, tys, dty, st, G, span):
    E.event("log", raw, raw, [E.resolve(a, st) for a in args], UNIT, G, span, ())
    return UNIT


@model("core::cmp::PartialOrd::le:log")
def _x(*a):
    return NotImplemented


# ---- iterators
def iter_of(E, v, st):
    v = E.val(v, st)
    if E.has_ref(v):
        v = E.resolve(v, st)
    return v


def callf(E, fterm, fval, av, st, G, span, dty=""):
    g = E.val(fval, st)
    if g.op == "clo":
        r, _ = E.call_closure(fval, g, av, dty, st, G, span)
        return r
    if g.op in ("fn", "ctor"):
        r, _ = E.call(g, av, [""] * len(av), dty, st, G, span)
        return r
    return mk("call", "dyncall", g, *[E.resolve(a, st) for a in av])


def in_iter(E, it, st, body):
    """Run body once for the abstract element, as a loop over it: captured state that changes is
    generalised to a loop variable."""
    lid = ("iter", E.strip_rec(it)[0].id, len(E.stack))
    save = E.loopstack
    E.loopstack = save + (lid,)
    nev = len(E.events)
    changed = {}
    for _ in range(5):
        del E.events[nev:]
        s = dict(st)
        s.update(changed)
        hs = dict(s)
        r = body(s)
        new = False
        for k in set(s) | set(hs):
            a = hs.get(k)
            if a is None:
                a = UNDEF if k.op == "loc" else k
            b = s.get(k, a)
            if a is not b and k not in changed:
                if k not in st and k.op == "loc":
                    continue
                rec = mk("rec", "iter", lid[1], len(E.stack), k.id if k.op != "loc" else k.a[1], k.op, k.a[0] if k.op == "loc" else 0)
                E.rec_info[rec.id] = [st.get(k, k), None, "iter"]
                changed[k] = rec
                new = True
        if not new:
            for k, rc in changed.items():
                E.rec_info[rc.id][1] = s.get(k, hs.get(k))
            break
    E.loopstack = save
    st.update(changed)
    return r


def some(x):
    return mk("adt", "core::option::Option", "Some", x)


NONE = mk("adt", "core::option::Option", "None")


def mkiter(src, elem, cond):
    return mk("iter", src, elem, cond)


I = "core::iter::traits::iterator::Iterator::"
DI = "core::iter::traits::double_ended::DoubleEndedIterator::"


def both(name, h):
    MODELS[I + name] = h
    MODELS["rayon::iter::ParallelIterator::" + name] = h
    MODELS["rayon::iter::IndexedParallelIterator::" + name] = h


def unrolled(E, f, kind, it, args, st, G, span):
    """a search through a list which is written out: element by element"""
    rs, g = [], G
    for x in it.a:
        x = E.resolve(x, st)
        r = callf(E, f, args[1], [x], st, g, span, *([] if kind == "find_map" else ["bool"]))
        if E.has_ref(r):
            r = E.resolve(r, st)
        yes = E.disc_is(r, "core::option::Option", "Some") if kind == "find_map" else boolify(r)
        rs.append((x, r, yes))
        g = b_and(g, yes if kind == "all" else b_not(yes))
    out = {"any": FALSE, "all": TRUE}.get(kind, NONE)
    for i in range(len(rs) - 1, -1, -1):
        x, r, yes = rs[i]
        if kind == "all":
            out = ite(yes, out, FALSE)
        else:
            out = ite(yes, TRUE if kind == "any" else r if kind == "find_map" else some(x if kind == "find" else c_int(i)), out)
    return out


def equal_to(r, e):
    """y, when r says e == y"""
    if r.op != "gate" or e.op != "elem" or r.a[0].op not in ("a.val", "a.eq", "a.sw"):
        return None
    if r is not boolify(r.a[0].a[0]) and r is not b_not(boolify(r.a[0].a[0])):
        return None
    z = r.a[0].a[0]
    if z.op == "bin" and (z.a[0], r is boolify(z)) in (("Eq", True), ("Ne", False)):
        ys = [q for q in z.a[1:3] if q is not e]
        if len(ys) == 1 and not any(q is e for q in subterms(ys[0])):
            return ys[0]
    return None


def iter_adaptor(kind):
    def h(E, f, raw, args, tys, dty, st, G, span):
        it = iter_of(E, args[0], st)
        e, c, src = E.elem(it), E.icond(it), E.isrc(it)
        if kind in ("any", "all", "find", "find_map", "position") and it.op == "arr" and 0 < len(it.a) <= 12:
            return unrolled(E, f, kind, it, args, st, G, span)

        def body(s):
            g = b_and(G, c)
            if kind in ("filter", "skip_while", "take_while", "map_while", "find", "position", "any", "all", "partition", "rposition", "inspect", "max_by_key", "min_by_key", "sort"):
                return callf(E, f, args[1], [e], s, g, span, "bool")
            return callf(E, f, args[1], [e], s, g, span)
        r = in_iter(E, it, st, body)
        if E.has_ref(r):
            r = E.resolve(r, st)
        if kind == "map":
            return mkiter(src, r, c)
        if kind == "filter":
            return mkiter(src, e, b_and(c, boolify(r)))
        if kind in ("take_while", "skip_while"):
            return mkiter(mk(kind, src, r), e, c)
        if kind == "map_while":
            return mkiter(mk("map_while", src), E.field(E.project(r, ("v", "Some"), st), "0"), c)
        if kind == "inspect":
            return mkiter(src, e, c)
        if kind == "filter_map":
            return mkiter(src, E.field(E.project(r, ("v", "Some"), st), "0"), b_and(c, E.disc_is(r, "core::option::Option", "Some")))
        if kind == "flat_map":
            return mkiter(mk("flat", src, E.isrc(r)), E.elem(r), b_and(c, E.icond(r)))
        if kind == "for_each":
            return UNIT
        if kind == "all":
            return boolify(mk("all", src, c, boolify(r)))
        if kind == "any" and c is TRUE:
            y = equal_to(r, e)
            if y is not None:
                E.event("call", "contains", raw, [src, y], r, G, span, ())
                return boolify(mk("call", "contains", src, y))
        if kind == "any":
            return b_not(boolify(mk("all", src, c, b_not(boolify(r)))))
        if kind == "find":
            return mk("findr", src, e, b_and(c, boolify(r)))
        if kind == "find_map":
            return mk("findr", src, E.field(E.project(r, ("v", "Some"), st), "0"), b_and(c, E.disc_is(r, "core::option::Option", "Some")))
        if kind in ("position", "rposition"):
            return mk("call", kind, src, c, boolify(r))
        if kind == "try_for_each":
            ok = "Ok" if dty.startswith("core::result") else "Some" if dty.startswith("core::option") else None
            return tried(E, src, c, r, ok, UNIT, st) if ok else mk("call", "try_for_each", src, c, r)
        return mk("call", kind, src, e, c, r)
    return h


for _k in ("map", "filter", "filter_map", "flat_map", "for_each", "any", "all", "find", "find_map", "position", "rposition", "take_while", "skip_while", "map_while", "inspect", "try_for_each", "partition", "max_by_key", "min_by_key"):
    both(_k, iter_adaptor(_k))


def str_search(name):
    """find, trim_*_matches, … of a text with a test of its characters: the test, of a character"""
    path = "core::str::<impl str>::" + name

    def h(E, f, raw, args, tys, dty, st, G, span):
        x, p = E.resolve(E.val(args[0], st), st), E.val(args[1], st)
        if p.op in ("clo", "fn"):
            it = mk("call", "core::str::<impl str>::chars", x)
            p = boolify(in_iter(E, it, st, lambda s: callf(E, f, args[1], [E.elem(it)], s, G, span, "bool")))
        else:
            p = E.resolve(p, st)
        r = mk("call", path, x, p)
        E.event("call", path, raw, [x, p], r, G, span, f.a[3] if len(f.a) > 3 else ())
        return r
    return h


for _k in ("find", "trim_start_matches"):
    MODELS["core::str::<impl str>::" + _k] = str_search(_k)


def tried(E, src, c, r, ok, value, st):
    """what all the elements for which c holds came to, r being what one comes to: the value, or the first failure"""
    adt = "core::result::Result" if ok == "Ok" else "core::option::Option"
    allok = boolify(mk("all", src, c, E.disc_is(r, adt, ok)))
    bad = mk("adt", adt, "Err", E.field(E.project(r, ("v", "Err"), st), "0")) if ok == "Ok" else mk("adt", adt, "None")
    return ite(allok, mk("adt", adt, ok, value), bad)


def fold(E, f, raw, args, tys, dty, st, G, span):
    it = iter_of(E, args[0], st)
    e, c, src = E.elem(it), E.icond(it), E.isrc(it)
    init = E.resolve(args[1], st)
    rec = mk("rec", "fold", E.strip_rec(it)[0].id, init.id)
    E.rec_info[rec.id] = [init, None, "fold"]
    r = in_iter(E, it, st, lambda s: callf(E, f, args[2], [rec, e], s, b_and(G, c), span))
    r = E.resolve(r, st)
    if raw.endswith("try_fold"):
        ok = "Ok" if dty.startswith("core::result") else "Some" if dty.startswith("core::option") else None
        if ok is None:
            E.rec_info[rec.id][1] = r
            return mk("call", "try_fold", src, init, r)
        E.rec_info[rec.id][1] = ite(c, E.field(E.project(r, ("v", ok), st), "0"), rec)
        return tried(E, src, c, r, ok, rec, st)
    E.rec_info[rec.id][1] = ite(c, r, rec)
    return rec


both("fold", fold)
both("try_fold", fold)


def enumerate_(E, f, raw, args, tys, dty, st, G, span):
    it = iter_of(E, args[0], st)
    return mkiter(E.isrc(it), mk("tup", mk("pos", E.isrc(it)), E.elem(it)), E.icond(it))


both("enumerate", enumerate_)


def zip_(E, f, raw, args, tys, dty, st, G, span):
    a, b = iter_of(E, args[0], st), iter_of(E, args[1], st)
    return mkiter(mk("zip", E.isrc(a), E.isrc(b)), mk("tup", E.elem(a), E.elem(b)), b_and(E.icond(a), E.icond(b)))


both("zip", zip_)


def rev(E, f, raw, args, tys, dty, st, G, span):
    it = iter_of(E, args[0], st)
    if it.op in ("iter", "coll"):
        return mkiter(mk("rev", it.a[0]), it.a[1], it.a[2])
    return mkiter(mk("rev", it), E.elem(it), TRUE)


both("rev", rev)


def nsel(kind):
    def h(E, f, raw, args, tys, dty, st, G, span):
        it = iter_of(E, args[0], st)
        n = E.resolve(E.val(args[1], st), st)
        if it.op in ("iter", "coll"):
            # not all elements: what is done to each must not look as if it were done to all of the source
            src = mk(kind, it.a[0], n)
            from .q import subst
            inner, parts = it.a[0], set(subterms(it.a[1]))
            while isinstance(inner, T):
                old = mk("elem", inner)
                if old in parts:
                    return mkiter(src, subst(it.a[1], {old: mk("elem", src)}), subst(it.a[2], {old: mk("elem", src)}))
                inner = inner.a[0] if inner.a else None
            return mkiter(mk(kind, it, n), mk("elem", mk(kind, it, n)), TRUE)
        s = mk(kind, it, n)
        return s
    return h


for _k in ("skip", "take", "step_by"):
    both(_k, nsel(_k))


def chain(E, f, raw, args, tys, dty, st, G, span):
    a, b = iter_of(E, args[0], st), iter_of(E, args[1], st)
    at = atom_val(mk("chain", E.isrc(a), E.isrc(b)))
    return mkiter(mk("chain", E.isrc(a), E.isrc(b)), ordered_gate(at, {True: E.elem(a), False: E.elem(b)}, None),
                  ordered_gate(at, {True: E.icond(a), False: E.icond(b)}, None))


both("chain", chain)


def flatten(E, f, raw, args, tys, dty, st, G, span):
    it = iter_of(E, args[0], st)
    e = E.elem(it)
    def g(x):
        if x.op == "adt" and x.a[1] in ("Some", "Ok"):
            return x.a[2]
        if x.op == "adt" and x.a[1] in ("None", "Err"):
            return DEAD
        return E.elem(x)
    if "Option" in dty:
        return mkiter(E.isrc(it), E.field(E.project(e, ("v", "Some"), st), "0"), b_and(E.icond(it), E.disc_is(e, "core::option::Option", "Some")))
    return mkiter(mk("flat", E.isrc(it), e), lift(None, g, e), E.icond(it))


both("flatten", flatten)


def collect(E, f, raw, args, tys, dty, st, G, span):
    it = iter_of(E, args[0], st)
    e, c, src = E.elem(it), E.icond(it), E.isrc(it)
    if dty == "alloc::string::String":
        r = mk("call", "collect_str", src, e, c)
        return r
    if dty.startswith(("core::result::Result", "core::option::Option")):
        ok = "Ok" if dty.startswith("core::result") else "Some"
        v = E.field(E.project(e, ("v", ok), st), "0")
        return tried(E, src, c, e, ok, mk("coll", src, v, c), st)
    if it.op in ("iter",):
        return mk("coll", src, e, c)
    return mk("coll", src, e, c)


both("collect", collect)
MODELS["core::iter::traits::collect::FromIterator::from_iter"] = collect
MODELS["rayon::iter::FromParallelIterator::from_par_iter"] = collect


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "rayon::iter::ParallelExtend::par_extend", "alloc::vec::Vec::append")
def extend(E, f, raw, args, tys, dty, st, G, span):
    it = iter_of(E, args[1], st)
    cur = E.resolve(E.val(args[0], st), st)
    opt = [l.op == "adt" and l.a[0] == "core::option::Option" for l in leaves(it)]
    if opt and all(opt):                # by one or none
        n = lift(None, lambda l: mk("upd", "push", 0, cur, l.a[2]) if l.a[1] == "Some" else cur, it)
        if n is not cur:
            g = lift(None, lambda l: TRUE if l.a[1] == "Some" else FALSE, it)
            for a in [x for x in leaves(n) if x is not cur][:1]:
                E.event("call", "push", raw, [cur, lift(None, lambda l: l.a[2] if l.a[1] == "Some" else DEAD, it)], UNIT, b_and(G, g), span, ())
            E.update(st, args[0], (("*",),), n)
        return UNIT
    n = mk("upd", "extend", 0, cur, mk("coll", E.isrc(it), E.elem(it), E.icond(it)))
    E.event("call", "extend", raw, [cur, mk("coll", E.isrc(it), E.elem(it), E.icond(it))], UNIT, G, span, ())
    E.update(st, args[0], (("*",),), n)
    return UNIT


def next_(E, f, raw, args, tys, dty, st, G, span):
    fn = E.F.fns.get(f.a[0])
    if fn is not None and fn.local:
        return NotImplemented
    it = iter_of(E, args[0], st)
    base, k = E.strip_rec(it)
    r = mk("next", it)
    c = E.icond(it)
    E.update(st, args[0], (("*",),), mk("upd", I + "next", 0, it))
    return r


MODELS[I + "next"] = next_
MODELS[DI + "next_back"] = next_


@model("core::iter::adapters::peekable::Peekable::peek", "core::iter::adapters::peekable::Peekable::peek_mut")
def peek(E, f, raw, args, tys, dty, st, G, span):
    return mk("next", iter_of(E, args[0], st))


def agg(kind):
    def h(E, f, raw, args, tys, dty, st, G, span):
        it = iter_of(E, args[0], st)
        t = mk("call", kind, E.isrc(it), E.elem(it), E.icond(it))
        E.aggregates.append(t)
        return t
    return h


for _k in ("sum", "count", "max", "min", "last", "product"):
    both(_k, agg(_k))


@model("*::contains")
def contains(E, f, raw, args, tys, dty, st, G, span):
    v = E.resolve(E.val(args[0], st), st)
    x = E.resolve(E.val(args[1], st), st)
    if v.op == "arr":
        r = FALSE
        for y in v.a:
            r = b_or(r, E.eqt(y, x))
        return r
    if v.op == "adt" and v.a[0].startswith("core::ops::range::Range"):
        return NotImplemented
    r = boolify(mk("call", "contains", v, x))
    E.event("call", "contains", raw, [v, x], r, G, span, f.a[3])
    return r


# ---- vec / map updates keep a short name
@model("alloc::vec::Vec::push")
def vpush(E, f, raw, args, tys, dty, st, G, span):
    cur = E.resolve(E.val(args[0], st), st)
    x = E.resolve(args[1], st)
    E.event("call", "alloc::vec::Vec::push", raw, [cur, x], UNIT, G, span, f.a[3])
    E.update(st, args[0], (("*",),), mk("upd", "push", 0, cur, x))
    return UNIT


@model("std::thread::scoped::Scope::spawn", "std::thread::functions::spawn", "std::thread::spawn", "rayon_core::scope::Scope::spawn", "std::thread::scoped::scope", "rayon_core::scope::scope", "std::thread::scope", "rayon_core::join::join", "rayon::join")
def spawn(E, f, raw, args, tys, dty, st, G, span):
    E.event("spawn", raw, raw, [], UNIT, G, span, ())
    r = UNIT
    for a in args:
        g = E.val(a, st)
        if g.op in ("clo", "fn"):
            sc = mk("scope", raw)
            n = (E.F.fns.get(g.a[0]).nargs - 1) if g.op == "clo" and g.a[0] in E.F.fns else 1
            r = callf(E, f, a, [sc] * n, st, G, span)
    E.event("spawn-end", raw, raw, [], UNIT, G, span, ())
    if raw.endswith("scope"):
        return r
    return mk("call", "joinhandle", E.resolve(r, st))


@model("core::intrinsics::integer_min", "core::intrinsics::integer_max")
def int_minmax(E, f, raw, args, tys, dty, st, G, span):
    """a.min(b) on numbers is cmp::min(a, b)"""
    n = "core::cmp::min" if "min" in f.a[0] else "core::cmp::max"
    return mk("call", n, E.val(args[0], st), E.val(args[1], st))
