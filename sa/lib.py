"""What the analysis knows about the functions of std, bytes, tokio, tokio-util, futures and bb8 which are not written
as Rust models.  Every entry states the result, the failures and the events of one library function."""
from terms import *
from facts import T, tshow
from engine import Engine, St, EMPTY_ENV, mkenv, envd, L

B = {}
NAT = {}


def b(*names):
    def w(f):
        for n in names:
            B[n] = f
        return f
    return w


def ret(E, st, v):
    return E.ret(st, v)


def multi(E, prs):
    out = []
    for s, v in prs:
        out += E.ret(s, v)
    return out


def fork2(st):
    return st.copy(), st.copy()


def boolsym(st, site):
    return st.fresh(site, "bool")


def panic(E, st, c, what, **kw):
    E.emit(st, "panic", c, what=what, **kw)


def place_of(E, st, r):
    return E.canon_place(st, r)


def content(E, st, v):
    """value level view of a string / bytes / anything behind references"""
    return E.rd(st, v)


# ------------------------------------------------------------------ natives
def nat_(name):
    def w(f):
        NAT[name] = f
        return f
    return w


@nat_("poll")
def _(E, st, data, v):
    return E.ret(st, ready(v))


@nat_("drops")
def _(E, st, data, v):
    return E.run_drops(st, data[0])


@nat_("wrap")
def _(E, st, data, v):
    k = data[0]
    if k == "err":
        return E.ret(st, err(v))
    if k == "ok":
        return E.ret(st, ok(v))
    if k == "some":
        return E.ret(st, some(v))
    if k == "not":
        return E.ret(st, E.neg(v) if v.op != "agg" else v)
    if k == "unit":
        return E.ret(st, UNIT)
    return E.ret(st, v)


@nat_("then")
def _(E, st, data, v):
    return THEN[data[0]](E, st, data, v)


THEN = {}


# ------------------------------------------------------------------ identity at the level of contents
def ident(E, st, c):
    return E.ret(st, c.args[0])


def owned(E, st, c):
    return E.ret(st, content(E, st, c.args[0]))


for n in ("core::pin::Pin::new_unchecked", "core::pin::Pin::new", "core::pin::Pin::as_mut", "core::pin::Pin::get_mut",
          "core::pin::Pin::get_unchecked_mut", "core::pin::Pin::into_inner", "core::hint::must_use", "core::hint::black_box",
          "core::future::into_future::IntoFuture::into_future", "core::convert::identity",
          "alloc::string::String::as_str", "alloc::string::String::as_bytes", "str::as_bytes", "core::str::as_bytes",
          "alloc::vec::Vec::as_slice", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow",
          "core::borrow::BorrowMut::borrow_mut", "alloc::vec::Vec::as_mut_slice", "alloc::string::String::as_mut_str",
          "bytes::buf::buf_impl::Buf::chunk", "core::iter::traits::iterator::Iterator::by_ref", "core::mem::ManuallyDrop::new",
          "[T]::as_ref", "str::as_ref", "alloc::boxed::Box::into_pin", "alloc::boxed::Box::leak",
          "core::iter::traits::collect::IntoIterator::into_iter_", "alloc::vec::Vec::into_boxed_slice",
          "tracing::instrument::Instrument::instrument",
          "bytes::buf::buf_impl::Buf::reader", "alloc::string::String::into_boxed_str",
          "std::sync::poison::PoisonError::into_inner", "core::slice::as_ref", "core::task::wake::Context::waker",
          "futures_util::future::future::FutureExt::boxed_", "core::ops::try_trait::Try::from_output_"):
    B[n] = ident

for n in ("alloc::string::ToString::to_string", "alloc::borrow::ToOwned::to_owned", "[T]::to_vec", "alloc::slice::to_vec",
          "alloc::string::String::into_bytes", "bytes::bytes_mut::BytesMut::freeze", "bytes::bytes::Bytes::copy_from_slice",
          "bytes::bytes::Bytes::from_static", "bytes::bytes::Bytes::to_vec", "alloc::string::String::from", "str::to_string",
          "str::to_owned", "alloc::str::to_owned", "alloc::string::String::into_string", "alloc::vec::Vec::into_iter_",
          "core::fmt::rt::Argument::x", "alloc::borrow::Cow::into_owned",
          "core::ops::deref::Deref::deref_", "alloc::slice::into_vec", "[T]::into_vec", "str::into_string"):
    B[n] = owned


TEXT = ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase",
        "to_ascii_uppercase", "replace", "replacen", "repeat", "from_utf8_lossy", "trim_left", "trim_right", "trim_ascii", "escape_debug", "escape_default")


def changed_text(E, st, c):
    """text made from another by changing it"""
    x = mk("app", "text:" + c.d.rsplit("::", 1)[-1], *[content(E, st, a) for a in c.args])
    return E.ret(st, E.valref(x) if c.destty[0] == "ref" else x)


for n in TEXT:
    for p in ("str::", "alloc::str::", "core::str::", "alloc::string::String::", "[u8]::", "core::slice::ascii::", "alloc::slice::", "[T]::"):
        if not (n in ("replace", "repeat") and p in ("alloc::slice::", "[T]::", "[u8]::")):
            B[p + n] = changed_text


@b("alloc::string::ToString::to_string")
def _(E, st, c):
    v = content(E, st, c.args[0])
    if is_adt(v):
        d = v.a[0][1]
        hit = E.value_impl("core::fmt::Display", v)
        q = hit and hit[0]["items"].get("fmt")
        if q and q in E.F.bodies and not is_error(E, d):
            acc = E.alloc(st, "fmt", mk("seq"))
            E.push_native(st, "then", "fmt", acc)
            return E.inline(st, E.F.bodies[q], EMPTY_ENV, [c.args[0] if c.args[0].op == "ref" else E.valref(v), mk("ref", acc, ())], c)
        return E.ret(st, ERRTEXT if d.endswith("::TChannelError") and not (len(v.a) == 3 and v.a[2].op == "str") else ANYMSG)
    t = c.a[0] if c.a else None
    if v.op in ("sym", "fld", "der", "app", "cst") and t is not None and t[0] == "adt" and t[1] in E.F.adts and E.F.adts[t[1]].get("kind") == "enum" \
            and not is_error(E, t[1]):
        vs = E.variants_of(t[1])
        if vs and all(not x[2] for x in vs):
            out = []
            for s, i in E.variant(st, v, t[1]):
                acc = E.alloc(s, "fmt", mk("seq"))
                hit = E.value_impl("core::fmt::Display", adt(t[1], i))
                q = hit and hit[0]["items"].get("fmt")
                if not q or q not in E.F.bodies:
                    return E.ret(st, mk("app", "to_string", v))
                E.push_native(s, "then", "fmt", acc)
                out += E.inline(s, E.F.bodies[q], EMPTY_ENV, [E.valref(adt(t[1], i)), mk("ref", acc, ())], c)
            return out
    if v.op in ("str", "seq") or t is not None and (t[0] == "prim" and t[1] == "str" or t[0] == "adt" and t[1] == "alloc::string::String" or
                                                   t[0] == "ref"):
        return E.ret(st, v)
    if v.op in ("sym", "fld", "der", "app"):
        return E.ret(st, mk("app", "to_string", v) if not (t and is_error(E, t[1])) else ERRTEXT if t[1].endswith("::TChannelError") else ANYMSG)
    return E.ret(st, ANYMSG)


ERRTEXT = mk("app", "errtext")      # text of any error of the library or of a handler: of any length


def is_error(E, d):
    return bool(d) and (d.endswith("Error") or (d, "core::error::Error") in errset(E))


_errs = {}


def errset(E):
    k = id(E.F)
    if k not in _errs:
        _errs[k] = {(i["self"][1], "core::error::Error") for i in E.F.bytrait.get("core::error::Error", [])}
    return _errs[k]


def _fmt(E, st, data, v):
    x = st.mem.get(data[1], mk("seq"))
    return E.ret(st, flat_str(x))


THEN["fmt"] = _fmt


def flat_str(x):
    if x.op == "seq":
        if not x.a:
            return S("")
        if all(g[0] == "e" and g[1].op == "str" for g in x.a):
            return S("".join(g[1].a[0] for g in x.a))
        if any(g[1] is ANYMSG for g in x.a):
            return ANYMSG
        if len(x.a) == 1 and x.a[0][0] == "e":
            return x.a[0][1]
    return x


@b("core::fmt::Formatter::pad", "core::fmt::Formatter::write_str", "core::fmt::Write::write_str", "alloc::string::String::push_str",
   "core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt")
def _(E, st, c):
    r = c.args[0]
    pl = E.deref(r) if r.op == "ref" else None
    v = content(E, st, c.args[1])
    if pl is not None:
        pl = E.canon_place(st, r)
        old = E.load(st, pl)
        if old.op == "str":
            old = mk("seq", ("e", old)) if old.a[0] else mk("seq")
        if old.op == "seq":
            E.store(st, pl, flat_str(mk("seq", *(old.a + (("e", v),)))))
        else:
            E.store(st, pl, ANYMSG)
    return E.ret(st, UNIT if c.d.endswith("push_str") else ok(UNIT))


@b("core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst",
   "core::fmt::Arguments::new_const", "core::fmt::Arguments::new_v1", "alloc::fmt::format", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
   "core::fmt::rt::Argument::new_lower_hex", "core::fmt::rt::Argument::new_upper_hex", "alloc::fmt::format::format_inner")
def _(E, st, c):
    if c.d.startswith("core::fmt::Arguments::from_str"):
        v = content(E, st, c.args[0])
        return E.ret(st, v if v.op == "str" else ANYMSG)
    if c.d == "alloc::fmt::format" and c.args[0].op == "str":
        return E.ret(st, c.args[0])
    return E.ret(st, ANYMSG)


@b("core::cmp::PartialOrd::le", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::ge", "core::cmp::PartialOrd::gt")
def _(E, st, c):
    t0 = c.argtys[0] if c.argtys else None
    s = tshow(t0) if t0 else ""
    if "log::Level" in s or any("log::Level" in tshow(t) for t in c.argtys):
        if E.opts.get("log"):
            return E.ret(st, boolsym(st, "log"))
        return E.ret(st, FALSE)
    x, y = content(E, st, c.args[0]), content(E, st, c.args[1])
    n = c.d.rsplit("::", 1)[-1]
    if E.numeric(x) and E.numeric(y):
        d = {"le": lsub(y, x), "lt": ladd(lsub(y, x), I(-1)), "ge": lsub(x, y), "gt": ladd(lsub(x, y), I(-1))}[n]
        return E.ret(st, E.ge0(d))
    return E.ret(st, mk("app", "ty:bool:" + n, x, y))


@b("log::__private_api_log", "log::__private_api::log", "log::max_level", "log::__private_api::enabled", "log::logger")
def _(E, st, c):
    return E.ret(st, UNIT)


@b("core::default::Default::default")
def _(E, st, c):
    t = c.a[0] if c.a else T("unk")
    v = default_of(E, st, t)
    if v is None:
        return None
    return E.ret(st, v)


def default_of(E, st, t):
    k, d = t[0], t[1]
    if k == "prim":
        if d == "bool" or d in RNG:
            return I(0)
        if d == "str":
            return S("")
    if k == "ref" and t[2] and t[2][0][:2] == ("prim", "str"):
        return S("")
    if k == "tuple":
        vs = [default_of(E, st, x) for x in t[2]]
        return None if any(v is None for v in vs) else tup(*vs)
    if k == "adt":
        if d in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "bytes::bytes::Bytes", "bytes::bytes_mut::BytesMut"):
            return mk("seq")
        if d == "alloc::string::String":
            return S("")
        if d.endswith("HashMap") or d.endswith("BTreeMap") or d.endswith("HashSet"):
            return mk("map", EMPTYMAP)
        if d == OPT:
            return NONE
        if d.endswith("::Mutex") or d.endswith("::RwLock"):
            x = default_of(E, st, t[2][0]) if t[2] else None
            return None if x is None else nat("lock", x)
        if d.startswith("core::sync::atomic::"):
            return nat("atomic", I(0))
        if d == "alloc::sync::Arc" or d.endswith("arc::Arc"):
            x = default_of(E, st, t[2][0])
            return None if x is None else mk("arc", E.alloc(st, "arc", x))
    return None


EMPTYMAP = mk("emptymap")


@b("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def _(E, st, c):
    return E.ret(st, mk("box", E.alloc(st, "box", c.args[0])))


@b("alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "alloc::rcs::rc::Rc::new")
def _(E, st, c):
    return E.ret(st, mk("arc", E.alloc(st, "arc", c.args[0])))


@b("alloc::boxed::Box::new_uninit")
def _(E, st, c):
    return E.ret(st, mk("box", E.alloc(st, "box", UNINIT)))


@b("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(E, st, c):
    v = c.args[0]
    x = E.load(st, E.deref(v)) if v.op == "box" else v
    n = 0
    # MaybeUninit / ManuallyDrop wrappers
    while x.op == "with" and n < 6:
        x = x.a[2]
        n += 1
    if x.op == "agg" and x.a[0][0] == "array":
        return E.ret(st, mk("seq", *[("e", y) for y in x.a[2:]]))
    return E.ret(st, st.fresh("vec"))


@b("alloc::rcs::arc::Arc::ptr_eq", "alloc::sync::Arc::ptr_eq")
def _(E, st, c):
    return E.ret(st, E.cmp_eq(E.load(st, E.deref(c.args[0])), E.load(st, E.deref(c.args[1]))))


@b("alloc::rcs::arc::Arc::downgrade")
def _(E, st, c):
    return E.ret(st, E.load(st, E.deref(c.args[0])))


@b("alloc::rcs::arc::Weak::upgrade")
def _(E, st, c):
    v = E.load(st, E.deref(c.args[0]))
    a, z = fork2(st)
    return E.ret(a, some(v)) + E.ret(z, NONE)


PTRS = ("Box", "Arc", "Rc", "Pin", "Ref", "RefMut", "PooledConnection", "OwnedMutexGuard", "MutexGuard", "RwLockReadGuard",
        "RwLockWriteGuard", "OwnedRwLockReadGuard", "OwnedRwLockWriteGuard", "ManuallyDrop", "SemaphorePermit")


@b("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def _(E, st, c):
    r = c.args[0]
    pl = E.deref(r)
    v = E.load(st, pl)
    t = c.a[0] if c.a else T("unk")
    nm = (t[1] or "").rsplit("::", 1)[-1] if t[0] == "adt" else ""
    if is_nat(v, "guard"):
        return E.ret(st, v.a[2])
    if is_nat(v, "pooled"):
        return E.ret(st, E.mkref((mk("der", v.a[3]), ())))
    if v.op in ("ref", "box", "arc"):
        if nm in PTRS or t[0] == "ref" or nm == "":
            p2 = E.deref(v)
            return E.ret(st, mk("ref", p2[0], p2[1]) if p2[0].op != "der" or p2[1] else E.mkref(p2))
        return E.ret(st, r)
    if nm in PTRS:
        return E.ret(st, v if v.op in ("sym", "fld", "der", "app") else E.mkref((mk("der", v), ())))
    return E.ret(st, r)


@b("core::clone::Clone::clone", "core::clone::Clone::clone_from_", "core::option::Option::cloned_")
def _(E, st, c):
    v = E.load(st, E.deref(c.args[0]))
    if v.op == "ref" and c.a and c.a[0][0] != "ref":
        v = E.rd(st, v)
    if is_nat(v, "sender"):
        E.emit(st, "clone_sender", c, v=v)
    return E.ret(st, v)


@b("core::convert::Into::into")
def _(E, st, c):
    return conv_from(E, st, c, c.args[0], c.a[0] if c.a else T("unk"), c.a[1] if len(c.a) > 1 else T("unk"))


@b("core::convert::From::from")
def _(E, st, c):
    return conv_from(E, st, c, c.args[0], c.a[1] if len(c.a) > 1 else T("unk"), c.a[0] if c.a else T("unk"))


def conv_from(E, st, c, v, src, dst):
    """From::from(v): src -> dst"""
    if src == dst:
        return E.ret(st, v)
    hit = E.F.find_impl("core::convert::From", dst, (src,)) if dst[0] not in ("param", "unk", "alias") else None
    if hit is not None and src[0] in ("param", "unk", "alias") and hit[0]["targs"][1:2] != (src,):
        # several candidates: pick by value
        hit = None
        if is_adt(v):
            for i in E.F.bytrait.get("core::convert::From", ()):
                if i["self"] == dst and len(i["targs"]) > 1 and i["targs"][1][0] == "adt" and i["targs"][1][1] == v.a[0][1]:
                    hit = (i, {})
    if hit is not None:
        q = hit[0]["items"].get("from")
        if q in E.F.bodies:
            bb_ = E.F.bodies[q]
            return E.inline(st, bb_, mkenv({g: hit[1][g] for g in bb_.generics if g in hit[1]}), [v], c)
    # numbers, strings, bytes, boxes
    if dst[0] == "adt" and dst[1].endswith("::Box") and dst[2] and dst[2][0][0] == "dyn":
        return E.ret(st, ANYMSG)
    if dst[0] == "adt" and dst[1].endswith("::Box") and not (v.op == "box"):
        return E.ret(st, mk("box", E.alloc(st, "box", v)))
    if dst[0] == "adt" and dst[1].endswith("arc::Arc") and v.op not in ("arc", "box"):
        return E.ret(st, mk("arc", E.alloc(st, "arc", content(E, st, v))))
    if dst[0] == "adt" and dst[1] == OPT:
        return E.ret(st, some(v))
    if dst[0] == "adt" and dst[1].startswith("core::sync::atomic"):
        return E.ret(st, nat("atomic", v))
    if dst[0] == "adt" and (dst[1].endswith("::Mutex") or dst[1].endswith("::RwLock")):
        return E.ret(st, nat("lock", v))
    x = content(E, st, v)
    if x.op == "agg" and x.a[0][0] == "array":
        return from_items(E, st, dst, list(x.a[2:]))
    if dst[0] == "prim" or E.numeric(x) or x.op in ("str", "seq", "buf", "fld", "sym", "der", "app", "map", "with") and src[0] in ("ref", "adt", "prim", "slice"):
        if dst[0] == "adt" and is_error(E, dst[1]):
            return E.ret(st, mk("app", "from:" + dst[1], x))
        return E.ret(st, x)
    if dst[0] == "adt":
        return E.ret(st, mk("app", "from:" + dst[1], x))
    return E.ret(st, x)


def from_items(E, st, dst, items):
    if dst[0] == "adt" and (dst[1].endswith("HashMap") or dst[1].endswith("BTreeMap")):
        m = mk("map", EMPTYMAP)
        sts = [(st, m)]
        for it in items:
            nx = []
            for s, mm in sts:
                k, v = it.a[2], it.a[3]
                for s2, m2, old in map_insert(E, s, mm, k, v):
                    nx.append((s2, m2))
            sts = nx
        return multi(E, sts)
    return E.ret(st, mk("seq", *[("e", y) for y in items]))


@b("core::convert::TryInto::try_into")
def _(E, st, c):
    return conv_try(E, st, c, c.args[0], c.a[0], c.a[1] if len(c.a) > 1 else T("unk"))


@b("core::convert::TryFrom::try_from")
def _(E, st, c):
    return conv_try(E, st, c, c.args[0], c.a[1] if len(c.a) > 1 else T("unk"), c.a[0])


def conv_try(E, st, c, v, src, dst):
    hit = E.F.find_impl("core::convert::TryFrom", dst, (src,)) if dst[0] not in ("param", "unk", "alias") else None
    if hit is not None:
        q = hit[0]["items"].get("try_from")
        if q in E.F.bodies:
            bb_ = E.F.bodies[q]
            return E.inline(st, bb_, mkenv({g: hit[1][g] for g in bb_.generics if g in hit[1]}), [v], c)
    if dst[0] == "prim" and dst[1] in RNG and E.numeric(v):
        lo, hi = RNG[dst[1]]
        a, z = trange(v)
        out = []
        cond = []
        if a < lo:
            cond.append(E.ge0(ladd(v, I(-lo))))
        if z > hi:
            cond.append(E.ge0(lsub(I(hi), v)))
        cond = [x for x in cond if x is not TRUE]
        if not cond:
            return E.ret(st, ok(v))
        cc = cond[0] if len(cond) == 1 else mk("and", *cond)
        for s, t in E.fork_bool(st, cc):
            out += E.ret(s, ok(v) if t else err(mk("cst", "TryFromIntError", "")))
        return out
    if dst[0] in ("param", "alias"):
        # conversion of a user's message type
        E.emit(st, "user_try", c, src=v, dst=tshow(dst), srct=tshow(src))
        r = mk("app", "try_into:" + ty_key(src) + ":" + ty_key(dst), v)
        a, z = fork2(st)
        return E.ret(a, ok(mk("app", "conv:" + ty_key(src) + ":" + ty_key(dst), v))) + E.ret(z, err(z.fresh("converr")))
    if src[0] in ("param", "alias"):
        E.emit(st, "user_try", c, src=v, dst=tshow(dst), srct=tshow(src))
        a, z = fork2(st)
        return E.ret(a, ok(mk("app", "conv:" + ty_key(src) + ":" + ty_key(dst), v))) + E.ret(z, err(z.fresh("converr")))
    if dst[0] == "array":
        x = content(E, st, v)
        if x.op == "buf" and x.a[2].op == "int":
            return E.ret(st, ok(x))
    a, z = fork2(st)
    return E.ret(a, ok(mk("app", "tryfrom:" + tshow(dst), content(E, st, v)))) + E.ret(z, err(z.fresh("converr")))


def ty_key(t):
    return "P" if t[0] in ("param", "alias") else (t[1] or t[0]).rsplit("::", 1)[-1]


@b("str::parse", "core::str::parse")
def _(E, st, c):
    dst = c.a[0] if c.a else T("unk")
    return fromstr(E, st, c, c.args[0], dst)


@b("core::str::traits::FromStr::from_str")
def _(E, st, c):
    return fromstr(E, st, c, c.args[0], c.a[0] if c.a else T("unk"))


def fromstr(E, st, c, v, dst):
    hit = E.F.find_impl("core::str::traits::FromStr", dst) if dst[0] == "adt" else None
    if hit:
        q = hit[0]["items"].get("from_str")
        if q in E.F.bodies:
            return E.inline(st, E.F.bodies[q], EMPTY_ENV, [v], c)
    a, z = fork2(st)
    return E.ret(a, ok(mk("app", "parse:" + tshow(dst), content(E, st, v)))) + E.ret(z, err(z.fresh("parseerr")))


# ------------------------------------------------------------------ ?
def split_result(E, st, v, d):
    """[(st, variant, payload)]"""
    if v.op == "agg":
        return [(st, v.a[1], v.a[2] if len(v.a) > 2 else UNIT)]
    out = []
    for s, i in E.variant(st, v, d):
        pv = E.proj(s, E.proj(s, v, ("v", i)), ("f", 0))
        out.append((s, i, pv))
    return out


@b("core::ops::try_trait::Try::branch")
def _(E, st, c):
    v = c.args[0]
    t = c.a[0] if c.a else T("unk")
    d = v.a[0][1] if is_adt(v) else t[1]
    out = []
    if d == RES:
        for s, i, p in split_result(E, st, v, RES):
            out += E.ret(s, adt(CF, 0, p) if i == 0 else adt(CF, 1, err(p)))
        return out
    if d == OPT:
        for s, i, p in split_result(E, st, v, OPT):
            out += E.ret(s, adt(CF, 0, p) if i == 1 else adt(CF, 1, NONE))
        return out
    if d == POLL:
        # Poll<Result<T, E>>
        for s, i, p in split_result(E, st, v, POLL):
            if i == 1:
                out += E.ret(s, adt(CF, 0, PENDING))
                continue
            for s2, j, q in split_result(E, s, p, RES):
                out += E.ret(s2, adt(CF, 0, ready(q)) if j == 0 else adt(CF, 1, err(q)))
        return out
    return None


@b("core::ops::try_trait::FromResidual::from_residual")
def _(E, st, c):
    v = c.args[0]
    self_ty = c.a[0] if c.a else T("unk")
    res_ty = c.a[1] if len(c.a) > 1 else T("unk")
    if v.op == "agg" and v.a[0] == ("adt", OPT):
        return E.ret(st, NONE)
    p = v.a[2] if v.op == "agg" and len(v.a) > 2 else st.fresh("resid")
    dst = self_ty[2][1] if self_ty[0] == "adt" and self_ty[1] == RES and len(self_ty[2]) > 1 else T("unk")
    src = res_ty[2][1] if res_ty[0] == "adt" and res_ty[1] == RES and len(res_ty[2]) > 1 else T("unk")
    E.push_native(st, "wrap", "err")
    if dst == src:
        return E.ret(st, p)
    return conv_from(E, st, c, p, src, dst)


@b("core::ops::try_trait::Try::from_output")
def _(E, st, c):
    t = c.a[0] if c.a else T("unk")
    return E.ret(st, some(c.args[0]) if t[1] == OPT else ok(c.args[0]))


# ------------------------------------------------------------------ mem, Option cells
@b("core::mem::take", "core::option::Option::take")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    if c.d.endswith("Option::take"):
        pl = E.deref(c.args[0])
        n = 0
        while E.load(st, pl).op == "ref" and n < 4:
            pl = E.deref(E.load(st, pl))
            n += 1
    else:
        pl = E.deref(c.args[0])
    v = E.load(st, pl)
    t = c.a[0] if c.a else T("unk")
    nv = NONE if c.d.endswith("Option::take") else default_of(E, st, t)
    if nv is None:
        nv = st.fresh("default")
    E.store(st, pl, nv)
    return E.ret(st, v)


@b("core::mem::replace", "core::option::Option::replace", "core::option::Option::insert")
def _(E, st, c):
    pl = E.deref(c.args[0])
    v = E.load(st, pl)
    x = c.args[1]
    if "Option" in c.d:
        E.store(st, pl, some(x))
        if c.d.endswith("insert"):
            return E.ret(st, mk("ref", pl[0], pl[1] + (("v", 1), ("f", 0))))
        return E.ret(st, v)
    E.store(st, pl, x)
    return E.ret(st, v)


@b("core::mem::swap")
def _(E, st, c):
    p, q = E.deref(c.args[0]), E.deref(c.args[1])
    x, y = E.load(st, p), E.load(st, q)
    E.store(st, p, y)
    E.store(st, q, x)
    return E.ret(st, UNIT)


@b("core::mem::drop")
def _(E, st, c):
    r = E.alloc(st, "dropped", c.args[0])
    t = c.a[0] if c.a else None
    return E.drop(st, (r, ()), c.args[0], t)


@b("core::mem::forget", "core::mem::manually_drop::ManuallyDrop::new")
def _(E, st, c):
    if any(x.op == "agg" and x.a[0] == ("nat", "permit") for x in subterms(c.args[0])):
        E.emit(st, "sem_forget", c, v=c.args[0])
    return E.ret(st, UNIT)


@b("core::mem::size_of")
def _(E, st, c):
    t = c.a[0] if c.a else T("unk")
    n = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "usize": 8}.get(t[1])
    if n is None:
        return E.ret(st, mk("app", "size_of", mk("cst", tshow(t), "")))
    return E.ret(st, I(n))


# ------------------------------------------------------------------ integers
def _num(name):
    return [p + name for p in ("core::num::", "usize::", "u8::", "u16::", "u32::", "u64::", "i32::", "i64::", "i8::", "i16::", "isize::")] + ["~" + name]


def prim_of(c):
    t = c.destty
    if t[0] == "adt" and t[2]:
        t = t[2][0]
    if t[0] == "tuple" and t[2]:
        t = t[2][0]
    if t[0] == "prim" and t[1] in RNG:
        return t[1]
    return "usize"


@b(*_num("saturating_sub"))
def _(E, st, c):
    x, y = c.args[:2]
    if not (E.numeric(x) and E.numeric(y)):
        return None
    d = lsub(x, y)
    lo = RNG[prim_of(c)][0]
    out = []
    for s, t in E.fork_bool(st, E.ge0(ladd(d, I(-lo)))):
        out += E.ret(s, d if t else I(lo))
    return out


@b(*_num("saturating_add"))
def _(E, st, c):
    x, y = c.args[:2]
    if not (E.numeric(x) and E.numeric(y)):
        return None
    d = ladd(x, y)
    hi = RNG[prim_of(c)][1]
    out = []
    for s, t in E.fork_bool(st, E.ge0(lsub(I(hi), d))):
        out += E.ret(s, d if t else I(hi))
    return out


@b(*_num("checked_sub"), *_num("checked_add"), *_num("checked_mul"))
def _(E, st, c):
    x, y = c.args[:2]
    if not (E.numeric(x) and E.numeric(y)):
        return None
    n = c.d.rsplit("::", 1)[-1]
    if n.endswith("mul"):
        if y.op != "int":
            x, y = y, x
        if y.op != "int":
            return None
        d = lscale(x, y.a[0])
    else:
        d = lsub(x, y) if n.endswith("sub") else ladd(x, y)
    lo, hi = RNG[prim_of(c)]
    cond = E.ge0(ladd(d, I(-lo))) if n.endswith("sub") else E.ge0(lsub(I(hi), d))
    out = []
    for s, t in E.fork_bool(st, cond):
        out += E.ret(s, some(d) if t else NONE)
    return out


@b(*_num("wrapping_add"), *_num("wrapping_sub"))
def _(E, st, c):
    return E.ret(st, mk("app", "ty:%s:%s" % (prim_of(c), c.d.rsplit("::", 1)[-1]), *c.args))


SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16}


@b(*_num("to_be_bytes"), *_num("to_le_bytes"))
def _(E, st, c):
    t = c.argtys[0][1] if c.argtys and c.argtys[0][0] == "prim" else None
    if t not in SIZES:
        return None
    return E.ret(st, mk("app", ("be:" if "_be_" in c.d else "le:") + t, c.args[0]))


@b(*_num("from_be_bytes"), *_num("from_le_bytes"))
def _(E, st, c):
    t = prim_of(c)
    v = content(E, st, c.args[0])
    le = "_le_" in c.d
    if v.op == "app" and v.a[0] == ("le:" if le else "be:") + t:
        return E.ret(st, v.a[1])
    at = None
    if v.op == "buf" and v.a[2] is I(SIZES[t]):
        at = v.a[:2]
    s = seqv(v)
    if all(k == "e" for k, x in s.a) and len(s.a) == SIZES[t]:
        xs = [x for k, x in s.a]
        if all(x.op == "int" for x in xs):
            n = 0
            for x in (xs[::-1] if le else xs):
                n = n << 8 | (x.a[0] & 255)
            return E.ret(st, I(n))
        if all(x.op == "app" and x.a[0] == "get_u8" and x.a[1] is xs[0].a[1] and x.a[2] is ladd(xs[0].a[2], I(i)) for i, x in enumerate(xs)):
            at = xs[0].a[1:]
    if at is None:
        return E.ret(st, mk("app", "ty:%s:frombytes" % t, v))
    return E.ret(st, mk("app", "get_" + t, mk("app", "le", at[0]) if le else at[0], at[1]))


@b("core::cmp::Ord::min", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::max")
def _(E, st, c):
    x, y = c.args[:2]
    if not (E.numeric(x) and E.numeric(y)):
        return None
    mn = c.d.endswith("min")
    out = []
    for s, t in E.fork_bool(st, E.ge0(lsub(y, x))):
        out += E.ret(s, (x if t else y) if mn else (y if t else x))
    return out


@b("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _(E, st, c):
    x, y = content(E, st, c.args[0]), content(E, st, c.args[1])
    if x.op in ("sym", "fld", "der", "app") or y.op in ("sym", "fld", "der", "app") or x.op in ("str", "int") or y.op in ("str", "int"):
        # field-less enums compare by variant
        t = c.argtys[0] if c.argtys else T("unk")
        while t[0] == "ref":
            t = t[2][0]
        if t[0] == "adt" and E.F.adts.get(t[1], {}).get("kind") == "enum" and all(not v[2] for v in E.variants_of(t[1]) or [(0, 0, 1)]):
            x, y = E.discr(st, x, t), E.discr(st, y, t)
        r = E.cmp_eq(x, y)
    elif x is y:
        r = TRUE
    elif x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] != y.a[1] and x.a[0][0] == "adt":
        r = FALSE
    elif x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a) == len(y.a):
        parts = [E.cmp_eq(p, q) for p, q in zip(x.a[2:], y.a[2:])]
        parts = [p for p in parts if p is not TRUE]
        if any(p is FALSE for p in parts):
            r = FALSE
        elif not parts:
            r = TRUE
        else:
            r = parts[0] if len(parts) == 1 else mk("and", *parts)
    else:
        r = mk("app", "ty:bool:eq", x, y)
    return E.ret(st, r if c.d.endswith("eq") else E.neg(r))


@b("num_traits::cast::FromPrimitive::from_u8", "num_traits::cast::FromPrimitive::from_u16", "num_traits::cast::FromPrimitive::from_u32",
   "num_traits::cast::FromPrimitive::from_u64", "num_traits::cast::FromPrimitive::from_i64", "num_traits::cast::FromPrimitive::from_usize",
   "num_traits::cast::FromPrimitive::from_i32")
def _(E, st, c):
    t = c.a[0] if c.a else T("unk")
    if t[0] in ("unk", "param", "alias"):
        t = c.destty[2][0] if c.destty[0] == "adt" and c.destty[2] else t
    hit = E.F.find_impl("num_traits::cast::FromPrimitive", t)
    if hit:
        q = hit[0]["items"].get("from_i64") or hit[0]["items"].get("from_u64")
        if q in E.F.bodies:
            return E.inline(st, E.F.bodies[q], EMPTY_ENV, [c.args[0]], c)
    return None


@b("num_traits::cast::ToPrimitive::to_u8", "num_traits::cast::ToPrimitive::to_u16", "num_traits::cast::ToPrimitive::to_u32",
   "num_traits::cast::ToPrimitive::to_u64", "num_traits::cast::ToPrimitive::to_usize")
def _(E, st, c):
    t = c.a[0] if c.a else T("unk")
    hit = E.F.find_impl("num_traits::cast::ToPrimitive", t)
    if hit:
        q = hit[0]["items"].get("to_i64")
        if q in E.F.bodies:
            return E.inline(st, E.F.bodies[q], EMPTY_ENV, [c.args[0]], c)
    return None


# ------------------------------------------------------------------ atomics
@b("core::sync::atomic::Atomic::new", "core::sync::atomic::AtomicBool::new", "core::sync::atomic::AtomicU32::new")
def _(E, st, c):
    return E.ret(st, nat("atomic", c.args[0]))


def atomic_ty(c):
    t = c.destty
    if t[0] == "prim" and t[1] in RNG:
        return t[1]
    if c.a and c.a[0][0] == "prim" and c.a[0][1] in RNG:
        return c.a[0][1]
    return None


@b("core::sync::atomic::Atomic::load")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = st.fresh("atomic", atomic_ty(c))
    E.emit(st, "atomic_load", c, place=mk("ref", pl[0], pl[1]), value=v)
    return E.ret(st, v)


@b("core::sync::atomic::Atomic::store")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    E.emit(st, "atomic_store", c, place=mk("ref", pl[0], pl[1]), value=c.args[1])
    return E.ret(st, UNIT)


@b("core::sync::atomic::Atomic::swap", "core::sync::atomic::Atomic::fetch_or", "core::sync::atomic::Atomic::fetch_and")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = st.fresh("atomic", atomic_ty(c))
    E.emit(st, "atomic_load", c, place=mk("ref", pl[0], pl[1]), value=v)
    if not c.d.endswith("fetch_and"):
        E.emit(st, "atomic_store", c, place=mk("ref", pl[0], pl[1]), value=c.args[1])
    return E.ret(st, v)


@b("core::sync::atomic::Atomic::fetch_add", "core::sync::atomic::Atomic::fetch_sub", "core::sync::atomic::Atomic::fetch_update",
   "core::sync::atomic::Atomic::compare_exchange")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    k = c.d.rsplit("::", 1)[-1]
    v = st.fresh("ticket" if k in ("fetch_add", "fetch_sub") else "atomic", atomic_ty(c))
    E.emit(st, "atomic_rmw", c, place=mk("ref", pl[0], pl[1]), value=v, op=k, by=c.args[1] if len(c.args) > 1 else UNIT)
    if k in ("fetch_update", "compare_exchange"):
        a, z = fork2(st)
        return E.ret(a, ok(v)) + E.ret(z, err(v))
    return E.ret(st, v)


# ------------------------------------------------------------------ locks
@b("tokio::sync::mutex::Mutex::new", "tokio::sync::rwlock::RwLock::new", "std::sync::poison::mutex::Mutex::new",
   "std::sync::poison::rwlock::RwLock::new", "tokio::sync::rwlock::RwLock::const_new", "parking_lot::Mutex::new", "core::cell::RefCell::new",
   "tokio::sync::rwlock::RwLock::with_max_readers")
def _(E, st, c):
    return E.ret(st, nat("lock", c.args[0]))


def lock_mode(d):
    n = d.rsplit("::", 1)[-1]
    if "read" in n or n == "borrow":
        return "r"
    return "w"


def lockty(c):
    t = c.argtys[0] if c.argtys else T("unk")
    while t[0] in ("ref", "ptr") and t[2]:
        t = t[2][0]
    while t[0] == "adt" and t[1].rsplit("::", 1)[-1] in ("Arc", "Rc", "Box") and t[2]:
        t = t[2][0]
    return t[2][0] if t[0] == "adt" and t[2] else T("unk")


def acquire(E, st, c, pl, mode, lt):
    """lock at place pl is taken: its content may have been changed by anyone"""
    inner = (pl[0], pl[1] + (("inner",),))
    cur = E.load(st, pl)
    if not shared_lock(E, st, pl):
        x = E.load(st, inner)
    else:
        x = st.fresh("locked:" + tshow(lt)[:60])
        E.store(st, inner, x)
    E.emit(st, "lock", c, place=mk("ref", pl[0], pl[1]), mode=mode, content=x, ty=tshow(lt))
    return nat("guard", mk("ref", inner[0], inner[1]), mk("m", mode), mk("ref", pl[0], pl[1]))


def shared_lock(E, st, pl):
    return True


@b("tokio::sync::mutex::Mutex::lock", "tokio::sync::rwlock::RwLock::read", "tokio::sync::rwlock::RwLock::write",
   "tokio::sync::mutex::Mutex::lock_owned", "tokio::sync::rwlock::RwLock::read_owned", "tokio::sync::rwlock::RwLock::write_owned")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    E.opts.setdefault("_lt", {})[(pl)] = lockty(c)
    return E.ret(st, nat("lockfut", mk("ref", pl[0], pl[1]), mk("m", lock_mode(c.d)), mk("cst", "lt", lockty(c))))


@b("poll:lockfut")
def _(E, st, c, v, pl):
    r = v.a[2]
    out = []
    E.emit(st, "lock_wait", c, place=r, mode=v.a[3].a[0], ty=tshow(v.a[4].a[1]))
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    g = acquire(E, st, c, (r.a[0], r.a[1]), v.a[3].a[0], v.a[4].a[1])
    return E.ret(st, ready(g)) + out


@b("std::sync::poison::mutex::Mutex::lock", "std::sync::poison::rwlock::RwLock::read", "std::sync::poison::rwlock::RwLock::write",
   "tokio::sync::mutex::Mutex::blocking_lock", "tokio::sync::rwlock::RwLock::blocking_read", "tokio::sync::rwlock::RwLock::blocking_write",
   "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    E.emit(st, "lock_wait", c, place=mk("ref", pl[0], pl[1]), mode=lock_mode(c.d), ty=tshow(lockty(c)))
    g = acquire(E, st, c, pl, lock_mode(c.d), lockty(c))
    return E.ret(st, ok(g) if c.d.startswith("std::sync") else g)


@b("std::sync::poison::mutex::Mutex::try_lock", "std::sync::poison::rwlock::RwLock::try_read", "std::sync::poison::rwlock::RwLock::try_write",
   "tokio::sync::mutex::Mutex::try_lock", "tokio::sync::rwlock::RwLock::try_read", "tokio::sync::rwlock::RwLock::try_write")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    z = st.copy()
    g = acquire(E, st, c, pl, lock_mode(c.d), lockty(c))
    return E.ret(st, ok(g)) + E.ret(z, err(mk("cst", "WouldBlock", "")))


@b("tokio::sync::rwlock::RwLockWriteGuard::downgrade", "tokio::sync::rwlock::write_guard::RwLockWriteGuard::downgrade")
def _(E, st, c):
    g = c.args[0]
    if is_nat(g, "guard"):
        E.emit(st, "downgrade", c, place=g.a[4])
        return E.ret(st, nat("guard", g.a[2], mk("m", "r"), g.a[4]))
    return None


@b("tokio::sync::mutex::Mutex::get_mut", "tokio::sync::rwlock::RwLock::get_mut", "tokio::sync::mutex::Mutex::into_inner", "tokio::sync::rwlock::RwLock::into_inner")
def _(E, st, c):
    if c.d.endswith("get_mut"):
        pl = E.canon_place(st, c.args[0])
        return E.ret(st, mk("ref", pl[0], pl[1] + (("inner",),)))
    return E.ret(st, E.proj(st, c.args[0], ("inner",)))


@b("std::sync::poison::mutex::Mutex::get_mut", "std::sync::poison::rwlock::RwLock::get_mut")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    return E.ret(st, ok(mk("ref", pl[0], pl[1] + (("inner",),))))


# ------------------------------------------------------------------ channels
@b("tokio::sync::mpsc::bounded::channel", "tokio::sync::mpsc::unbounded::unbounded_channel", "futures_channel::mpsc::channel", "tokio::sync::oneshot::channel")
def _(E, st, c):
    ch = st.fresh("chan:" + tshow(c.a[0])[:40] if c.a else "chan")
    E.emit(st, "channel", c, chan=ch, cap=c.args[0] if c.args else I(0), fn=c.d)
    return E.ret(st, tup(nat("sender", ch), nat("receiver", ch)))


def chan_of(v):
    if is_nat(v, "sender") or is_nat(v, "receiver"):
        return v.a[2]
    return v


@b("tokio::sync::mpsc::bounded::Sender::send", "tokio::sync::mpsc::bounded::Sender::reserve", "tokio::sync::mpsc::bounded::Sender::send_timeout")
def _(E, st, c):
    s = content(E, st, c.args[0])
    return E.ret(st, nat("sendfut", s, c.args[1] if len(c.args) > 1 else UNIT))


@b("poll:sendfut")
def _(E, st, c, v, pl):
    s, x = v.a[2], v.a[3]
    out = []
    E.emit(st, "send_wait", c, chan=chan_of(s), value=x, sender=s)
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    a, z = fork2(st)
    E.emit(a, "send", c, chan=chan_of(s), value=x, sender=s)
    E.emit(z, "send_failed", c, chan=chan_of(s), value=x, sender=s)
    return E.ret(a, ready(ok(UNIT))) + E.ret(z, ready(err(mk("app", "SendError", x)))) + out


@b("tokio::sync::mpsc::bounded::Sender::try_send", "tokio::sync::mpsc::unbounded::UnboundedSender::send", "tokio::sync::oneshot::Sender::send",
   "tokio::sync::mpsc::bounded::Sender::blocking_send")
def _(E, st, c):
    s = content(E, st, c.args[0])
    a, z = fork2(st)
    E.emit(a, "send", c, chan=chan_of(s), value=c.args[1], sender=s, nowait=True)
    out = E.ret(a, ok(UNIT))
    if c.d.endswith("try_send"):
        y, z = fork2(z)
        E.emit(y, "send_failed", c, chan=chan_of(s), value=c.args[1], sender=s, nowait=True, full=True)
        out += E.ret(y, err(trysend_err(E, "Full", c.args[1])))
    E.emit(z, "send_failed", c, chan=chan_of(s), value=c.args[1], sender=s, nowait=c.d.endswith("try_send"))
    return out + E.ret(z, err(trysend_err(E, "Closed", c.args[1]) if c.d.endswith("try_send") else mk("app", "SendError", c.args[1])))


def trysend_err(E, name, v):
    d = "tokio::sync::mpsc::error::TrySendError"
    vs = E.variants_of(d)
    if not vs:
        return mk("app", "TrySendError", v)
    return adt(d, [x[0] for x in vs].index(name), v)


@b("tokio::sync::mpsc::bounded::Sender::is_closed", "tokio::sync::mpsc::unbounded::UnboundedSender::is_closed")
def _(E, st, c):
    s = content(E, st, c.args[0])
    v = boolsym(st, "is_closed")
    E.emit(st, "chan_closed_query", c, chan=chan_of(s), value=v)
    return E.ret(st, v)


@b("tokio::sync::mpsc::bounded::Receiver::recv", "tokio::sync::mpsc::unbounded::UnboundedReceiver::recv")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    return E.ret(st, nat("recvfut", mk("ref", pl[0], pl[1]), mk("cst", "rt", c.a[0] if c.a else T("unk"))))


@b("tokio::sync::mpsc::bounded::Receiver::try_recv", "tokio::sync::mpsc::bounded::Receiver::blocking_recv")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    a, z = fork2(st)
    x = a.fresh("item", )
    E.emit(a, "recv", c, chan=chan_of(v), value=x, nowait=True)
    E.emit(z, "recv_none", c, chan=chan_of(v), nowait=True)
    if c.d.endswith("try_recv"):
        return E.ret(a, ok(x)) + E.ret(z, err(z.fresh("tryrecverr")))
    return E.ret(a, some(x)) + E.ret(z, NONE)


@b("tokio::sync::mpsc::bounded::Receiver::close")
def _(E, st, c):
    v = content(E, st, c.args[0])
    E.emit(st, "recv_close", c, chan=chan_of(v))
    return E.ret(st, UNIT)


def do_recv(E, st, c, rv, nowait=False):
    """await one item of receiver value rv"""
    out = []
    kw = {"nowait": True} if nowait else {}
    E.emit(st, "recv_wait", c, chan=chan_of(rv), **kw)
    script = E.opts.get("recv_script")
    if script is not None:
        r = script(E, st, c, rv)
        if r is not None:
            for s, v in r:
                out += E.ret(s, ready(v))
            return out
    if E.cancel and not nowait and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    a, z = fork2(st)
    x = a.fresh("item")
    E.emit(a, "recv", c, chan=chan_of(rv), value=x, **kw)
    E.emit(z, "recv_none", c, chan=chan_of(rv), **kw)
    return E.ret(a, ready(some(x))) + E.ret(z, ready(NONE)) + out


@b("poll:recvfut")
def _(E, st, c, v, pl):
    r = v.a[2]
    rv = E.load(st, (r.a[0], r.a[1]))
    return do_recv(E, st, c, rv)


@b("poll:receiver")
def _(E, st, c, v, pl):
    # oneshot
    out = []
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    a, z = fork2(st)
    x = a.fresh("item")
    E.emit(a, "recv", c, chan=chan_of(v), value=x)
    E.emit(z, "recv_none", c, chan=chan_of(v))
    return E.ret(a, ready(ok(x))) + E.ret(z, ready(err(mk("cst", "RecvError", "")))) + out


@b("tokio_stream::wrappers::mpsc_bounded::ReceiverStream::new", "tokio_stream::wrappers::mpsc_unbounded::UnboundedReceiverStream::new")
def _(E, st, c):
    return E.ret(st, nat("rstream", c.args[0]))


# ------------------------------------------------------------------ semaphore
@b("tokio::sync::semaphore::Semaphore::new", "tokio::sync::semaphore::Semaphore::const_new")
def _(E, st, c):
    E.emit(st, "semaphore", c, n=c.args[0])
    return E.ret(st, nat("sem", c.args[0]))


@b("tokio::sync::semaphore::Semaphore::acquire", "tokio::sync::semaphore::Semaphore::acquire_owned", "tokio::sync::semaphore::Semaphore::acquire_many")
def _(E, st, c):
    return E.ret(st, nat("semfut", content(E, st, c.args[0])))


@b("poll:semfut")
def _(E, st, c, v, pl):
    out = []
    E.emit(st, "sem_wait", c, sem=v.a[2])
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    E.emit(st, "sem_acquire", c, sem=v.a[2])
    return E.ret(st, ready(ok(nat("permit", v.a[2])))) + out


@b("tokio::sync::semaphore::Semaphore::try_acquire", "tokio::sync::semaphore::Semaphore::try_acquire_owned")
def _(E, st, c):
    s = content(E, st, c.args[0])
    a, z = fork2(st)
    E.emit(a, "sem_acquire", c, sem=s)
    return E.ret(a, ok(nat("permit", s))) + E.ret(z, err(mk("cst", "NoPermits", "")))


@b("tokio::sync::semaphore::SemaphorePermit::forget", "tokio::sync::semaphore::OwnedSemaphorePermit::forget")
def _(E, st, c):
    E.emit(st, "sem_forget", c, v=c.args[0])
    return E.ret(st, UNIT)


@b("tokio::sync::semaphore::Semaphore::close", "tokio::sync::semaphore::Semaphore::add_permits")
def _(E, st, c):
    E.emit(st, "sem_other", c, fn=c.d)
    return E.ret(st, UNIT)


# ------------------------------------------------------------------ net and codec
def io_fut(kind):
    def f(E, st, c):
        return E.ret(st, nat("iofut", mk("m", kind), *[a if a.op != "ref" else content(E, st, a) for a in c.args]))
    return f


B["tokio::net::tcp::stream::TcpStream::connect"] = io_fut("connect")
B["tokio::net::tcp::listener::TcpListener::bind"] = io_fut("bind")
B["tokio::net::tcp::listener::TcpListener::accept"] = io_fut("accept")


@b("poll:iofut")
def _(E, st, c, v, pl):
    k = v.a[2].a[0]
    out = []
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    a, z = fork2(st)
    args = v.a[3:]
    if k == "connect":
        x = nat("stream", a.fresh("stream"))
    elif k == "bind":
        x = nat("listener", a.fresh("listener"))
    else:
        x = tup(nat("stream", a.fresh("stream")), a.fresh("peer"))
    E.emit(a, "io_" + k, c, args=tuple(args), value=x)
    E.emit(z, "io_" + k + "_failed", c, args=tuple(args))
    return E.ret(a, ready(ok(x))) + E.ret(z, ready(err(z.fresh("ioerr")))) + out


@b("tokio::net::tcp::stream::TcpStream::into_split", "tokio::io::split::split", "tokio::net::tcp::stream::TcpStream::split")
def _(E, st, c):
    s = c.args[0]
    x = s.a[2] if is_nat(s, "stream") else s
    return E.ret(st, tup(nat("rhalf", x), nat("whalf", x)))


@b("tokio::net::tcp::stream::TcpStream::set_nodelay", "tokio::net::tcp::stream::TcpStream::set_linger", "tokio::net::tcp::stream::TcpStream::peer_addr",
   "tokio::net::tcp::stream::TcpStream::local_addr", "tokio::net::tcp::listener::TcpListener::local_addr")
def _(E, st, c):
    a, z = fork2(st)
    return E.ret(a, ok(a.fresh("io"))) + E.ret(z, err(z.fresh("ioerr")))


@b("tokio_util::codec::framed_read::FramedRead::new", "tokio_util::codec::framed_write::FramedWrite::new", "tokio_util::codec::framed::Framed::new",
   "tokio_util::codec::framed_read::FramedRead::with_capacity")
def _(E, st, c):
    h = c.args[0]
    E.emit(st, "framed", c, half=h, codec=c.args[1], fn=c.d)
    return E.ret(st, nat("framed", mk("m", "r" if "read" in c.d else "w"), h.a[2] if is_nat(h) else h))


def stream_value(E, st, r):
    pl = E.canon_place(st, r) if r.op in ("ref", "box", "arc") else None
    v = E.load(st, pl) if pl is not None else r
    return pl, v


@b("!models::m_next")
def _(E, st, c):
    pl, v = stream_value(E, st, c.args[0])
    if is_adt(v) or pl is None:
        return None
    if v.op == "seq":
        v = nat("iter", v)
        E.store(st, pl, v)
    return E.ret(st, nat("nextfut", mk("ref", pl[0], pl[1])))


@b("!models::m_next_ready")
def _(E, st, c):
    pl, v = stream_value(E, st, c.args[0])
    if is_adt(v) or pl is None:
        return None
    if v.op == "seq":
        v = nat("iter", v)
        E.store(st, pl, v)
    return E.ret(st, nat("nextfut", mk("ref", pl[0], pl[1]), mk("m", "now")))


@b("poll:nextfut")
def _(E, st, c, v, pl):
    r = v.a[2]
    p = (r.a[0], r.a[1])
    s = E.load(st, p)
    if is_nat(s, "framed"):
        return read_frame(E, st, c, p, s)
    if is_nat(s, "rstream"):
        return do_recv(E, st, c, s.a[2], nowait=len(v.a) > 3)
    if is_nat(s, "iter"):
        out = []
        for s2, x in iter_next(E, st, p):
            out += E.ret(s2, ready(x))
        return out
    if is_nat(s, "ended"):
        return E.ret(st, ready(NONE))
    if not (s.op == "sym" and str(s.a[0]).startswith(("pure:", "arg"))):
        E.emit(st, "opaque", c, fn="stream " + show(s)[:60])
    a, z = fork2(st)
    out = []
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    if s.op == "sym" and str(s.a[0]).startswith("pure:"):
        # frames of a message: there is at least one (the functions making them are analysed on their own)
        x = mk("app", "first", s)
        E.store(a, p, mk("sym", "arg:rest:" + str(s.a[0]), 0))
        return E.ret(a, ready(some(x))) + out
    return E.ret(a, ready(some(a.fresh("sitem")))) + E.ret(z, ready(NONE)) + out


def read_frame(E, st, c, p, s):
    out = []
    E.emit(st, "read_wait", c, stream=s)
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    a, z, n = st.copy(), st.copy(), st.copy()
    if s.a[2].a[0] == "err":
        E.store(n, p, nat("ended"))
        E.emit(n, "read_end", c, stream=s)
        return E.ret(n, ready(NONE)) + out
    x = a.fresh("frame")
    E.emit(a, "read", c, value=x, stream=s)
    # a framed reader yields one decoding error and then ends
    E.store(z, p, nat("framed", mk("m", "err"), s.a[3]))
    E.emit(z, "read_err", c, stream=s)
    E.store(n, p, nat("ended"))
    E.emit(n, "read_end", c, stream=s)
    return E.ret(a, ready(some(ok(x)))) + E.ret(z, ready(some(err(z.fresh("codecerr"))))) + E.ret(n, ready(NONE)) + out


@b("futures_util::sink::SinkExt::send", "futures_util::sink::SinkExt::feed")
def _(E, st, c):
    pl, v = stream_value(E, st, c.args[0])
    if is_adt(v):
        return None
    return E.ret(st, nat("wrfut", v, c.args[1], mk("m", c.d.rsplit("::", 1)[-1])))


@b("!models::m_sink_send")
def _(E, st, c):
    pl, v = stream_value(E, st, c.args[0])
    return E.ret(st, nat("wrfut", v, c.args[1], mk("m", "feed")))


@b("poll:wrfut")
def _(E, st, c, v, pl):
    out = []
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    a, z = fork2(st)
    E.emit(a, "write", c, sink=v.a[2], value=v.a[3], how=v.a[4].a[0])
    E.emit(z, "write_failed", c, sink=v.a[2], value=v.a[3])
    return E.ret(a, ready(ok(UNIT))) + E.ret(z, ready(err(z.fresh("codecerr")))) + out


@b("futures_util::sink::SinkExt::flush", "futures_util::sink::SinkExt::close")
def _(E, st, c):
    pl, v = stream_value(E, st, c.args[0])
    return E.ret(st, nat("flfut", v))


@b("poll:flfut")
def _(E, st, c, v, pl):
    out = []
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    a, z = fork2(st)
    E.emit(a, "flush", c, sink=v.a[2])
    E.emit(z, "flush_failed", c, sink=v.a[2])
    return E.ret(a, ready(ok(UNIT))) + E.ret(z, ready(err(z.fresh("codecerr")))) + out


# ------------------------------------------------------------------ tasks
@b("tokio::task::spawn::spawn", "tokio::runtime::handle::Handle::spawn", "tokio::runtime::runtime::Runtime::spawn", "tokio::task::spawn_local",
   "tokio::task::join_set::JoinSet::spawn")
def _(E, st, c):
    f = c.args[-1]
    E.emit(st, "spawn", c, fut=f)
    E.spawn_task(st, f)
    return E.ret(st, nat("join", st.fresh("task")))


@b("poll:join")
def _(E, st, c, v, pl):
    out = []
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    E.emit(st, "join_wait", c, task=v)
    a, z = fork2(st)
    return E.ret(a, ready(ok(a.fresh("joined")))) + E.ret(z, ready(err(z.fresh("joinerr")))) + out


@b("tokio::runtime::task::join::JoinHandle::abort", "tokio::runtime::task::abort::AbortHandle::abort")
def _(E, st, c):
    E.emit(st, "abort", c, task=content(E, st, c.args[0]))
    return E.ret(st, UNIT)


@b("tokio::runtime::task::join::JoinHandle::is_finished")
def _(E, st, c):
    return looked_at_task(E, st, c, TRUE, FALSE)


def looked_at_task(E, st, c, ended, runs):
    a, z = fork2(st)
    E.emit(a, "task_ended", c, task=c.args[0])
    E.emit(z, "task_runs", c, task=c.args[0])
    return E.ret(a, ended) + E.ret(z, runs)


@b("futures_util::future::future::FutureExt::now_or_never")
def _(E, st, c):
    if "JoinHandle" not in str(c.argtys[0]):
        return E.ret(st, st.fresh("polled"))
    return looked_at_task(E, st, c, adt(OPT, 1, st.fresh("joined")), adt(OPT, 0))


@b("core::future::get_context", "models::m_cx", "!models::m_cx")
def _(E, st, c):
    return E.ret(st, UNIT)


@b("!core::future::future::Future::poll", "core::future::future::Future::poll")
def _(E, st, c):
    v = c.args[0]
    pl = None
    if v.op == "ref":
        pl = E.deref(v)
        v = E.load(st, pl)
    return E.poll(st, v, c, pl)


@b("futures_util::future::ready::ready", "core::future::ready::ready", "futures_util::future::ready::ok", "futures_util::future::ready::err")
def _(E, st, c):
    x = c.args[0]
    if c.d.endswith("::ok"):
        x = ok(x)
    elif c.d.endswith("::err"):
        x = err(x)
    return E.ret(st, nat("ready", x))


@b("poll:ready")
def _(E, st, c, v, pl):
    return E.ret(st, ready(v.a[2]))


@b("!models::m_forever")
def _(E, st, c):
    return E.ret(st, nat("forever"))


@b("poll:forever")
def _(E, st, c, v, pl):
    E.emit(st, "forever", c)
    if E.cancel and not st.cancelled:
        st.cancelled = True
        return E.ret(st, PENDING)
    return []


@b("tokio::time::sleep::sleep", "tokio::time::sleep")
def _(E, st, c):
    return E.ret(st, nat("ready", UNIT))


@b("!models::m_panic")
def _(E, st, c):
    panic(E, st, c, content(E, st, c.args[0]).a[0] if content(E, st, c.args[0]).op == "str" else "panic")
    return []


@b("!models::m_nondet")
def _(E, st, c):
    return E.ret(st, boolsym(st, "nondet"))


@b("!models::m_nonzero")
def _(E, st, c):
    return E.ret(st, UNIT)


@b("!models::m_scope_enter")
def _(E, st, c):
    v = content(E, st, c.args[0])
    E.emit(st, "scope_enter", c, limit=v)
    return E.ret(st, UNIT)


@b("!models::m_scope_exit")
def _(E, st, c):
    E.emit(st, "scope_exit", c)
    return E.ret(st, UNIT)


@b("core::panicking::panic_fmt", "core::panicking::panic", "std::panicking::begin_panic", "core::panicking::unreachable_display",
   "core::panicking::panic_display", "core::panicking::assert_failed", "core::option::unwrap_failed", "core::result::unwrap_failed",
   "core::panicking::panic_explicit", "core::option::expect_failed", "std::process::exit", "std::process::abort", "core::panicking::panic_nounwind")
def _(E, st, c):
    panic(E, st, c, c.d.rsplit("::", 1)[-1])
    return []


# ------------------------------------------------------------------ bb8
@b("bb8::api::Pool::builder")
def _(E, st, c):
    return E.ret(st, nat("poolb"))


def poolb(E, st, c):
    n = c.d.rsplit("::", 1)[-1]
    return E.ret(st, nat("poolb", *(c.args[0].a[2:] + (tup(S(n), *c.args[1:]),)))) if is_nat(c.args[0], "poolb") else E.ret(st, st.fresh("poolb"))


for n in ("max_size", "max_lifetime", "test_on_check_out", "error_sink", "min_idle", "idle_timeout", "connection_timeout", "reaper_rate",
          "queue_strategy", "retry_connection", "connection_customizer"):
    B["bb8::api::Builder::" + n] = poolb


@b("bb8::api::Builder::build", "bb8::api::Builder::build_unchecked")
def _(E, st, c):
    return E.ret(st, nat("pbfut", c.args[0], c.args[1]))


@b("poll:pbfut")
def _(E, st, c, v, pl):
    a, z = fork2(st)
    out = []
    E.emit(st, "pool_build_wait", c)
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    p = nat("pool", a.fresh("pool"))
    E.emit(a, "pool_build", c, cfg=v.a[2], manager=v.a[3], value=p)
    E.emit(z, "pool_build_failed", c)
    return E.ret(a, ready(ok(p))) + E.ret(z, ready(err(z.fresh("poolerr")))) + out


@b("bb8::api::Pool::get", "bb8::api::Pool::get_owned", "bb8::api::Pool::dedicated_connection")
def _(E, st, c):
    return E.ret(st, nat("pgfut", content(E, st, c.args[0]), mk("m", c.d.rsplit("::", 1)[-1])))


@b("poll:pgfut")
def _(E, st, c, v, pl):
    a, z = fork2(st)
    out = []
    E.emit(st, "pool_get_wait", c, pool=v.a[2])
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    E.emit(a, "pool_get", c, pool=v.a[2], how=v.a[3].a[0])
    x = nat("pooled", v.a[2], a.fresh("conn"))
    E.emit(z, "pool_get_failed", c, pool=v.a[2])
    return E.ret(a, ready(ok(x))) + E.ret(z, ready(err(z.fresh("poolerr")))) + out


# ------------------------------------------------------------------ maps
def as_map(v):
    if v.op == "map":
        return v
    return mk("map", v)


def map_find(E, st, v, key):
    for k, x in v.a[1:]:
        if k is key:
            return None if x is GONE else ("hit", x)
        if E.decide(st, E.cmp_eq(k, key)) != 0:
            return None
    return None


GONE = mk("gone")


def map_lookup(E, st, v, key):
    """[(st, 'hit', value, decided) | (st, 'miss', None, decided)]"""
    v = as_map(v)
    out = []
    pend = [(st, True)]
    for k, x in v.a[1:]:
        nx = []
        for s, dec in pend:
            c = E.cmp_eq(k, key)
            d = E.decide(s, c)
            for s2, t in E.fork_bool(s, c):
                if t:
                    out.append((s2, "miss" if x is GONE else "hit", None if x is GONE else x, dec and d is not None))
                else:
                    nx.append((s2, dec and d is not None))
        pend = nx
    for s, dec in pend:
        base = v.a[0]
        if base is EMPTYMAP:
            out.append((s, "miss", None, dec))
            continue
        c = mk("has", base, key)
        d = E.decide(s, c)
        for s2, t in E.fork_bool(s, c):
            if t:
                out.append((s2, "hit", mk("fld", base, ("k", key)), dec and d is not None))
            else:
                out.append((s2, "miss", None, dec and d is not None))
    return out


def map_set(v, key, val):
    v = as_map(v)
    ents = [e for e in v.a[1:] if e[0] is not key]
    if v.a[0] is EMPTYMAP and val is not GONE:
        return mk("map", v.a[0], *(ents + [(key, val)])) if not any(e[0] is key for e in v.a[1:]) else mk(
            "map", v.a[0], *[(k, val if k is key else x) for k, x in v.a[1:]])
    if v.a[0] is EMPTYMAP and val is GONE:
        return mk("map", v.a[0], *ents)
    return mk("map", v.a[0], *([(key, val)] + ents))


def map_insert(E, st, v, key, val):
    """[(st, newmap, old or None)]"""
    out = []
    for s, h, x, dec in map_lookup(E, st, v, key):
        out.append((s, map_set(v, key, val), x if h == "hit" else None))
    return out


MAPS = ("std::collections::hash::map::HashMap::", "std::collections::hash_map::HashMap::", "alloc::collections::btree::map::BTreeMap::", "hashbrown::map::HashMap::")


def mb(*names):
    return b(*[m + n for m in MAPS for n in names])


@mb("new", "with_capacity", "default")
def _(E, st, c):
    return E.ret(st, mk("map", EMPTYMAP))


def keyval(E, st, v):
    return content(E, st, v)


def mapref(pl):
    return mk("ref", pl[0], pl[1])


def maptys(c):
    t = c.argtys[0] if c.argtys else T("unk")
    while t[0] in ("ref",) and t[2]:
        t = t[2][0]
    if t[0] == "adt" and len(t[2]) >= 2:
        return t[2][0], t[2][1]
    return T("unk"), T("unk")


def mev(E, st, c, kind, pl, m, key=None, val=None, **kw):
    kt, vt = maptys(c)
    E.emit(st, kind, c, map=mapref(pl), base=as_map(m).a[0], key=key, val=val, kt=tshow(kt), vt=tshow(vt), **kw)


@mb("get", "get_mut", "get_key_value")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    m = as_map(E.load(st, pl))
    key = keyval(E, st, c.args[1])
    out = []
    if E.load(st, pl).op != "map":
        E.store(st, pl, m)
    for s, h, x, dec in map_lookup(E, st, m, key):
        mev(E, s, c, "map_get", pl, m, key, x, hit=h == "hit")
        if h == "hit":
            out += E.ret(s, some(mk("ref", pl[0], pl[1] + (("k", key),))))
        else:
            out += E.ret(s, NONE)
    return out


@mb("contains_key")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    m = as_map(E.load(st, pl))
    if E.load(st, pl).op != "map":
        E.store(st, pl, m)
    key = keyval(E, st, c.args[1])
    out = []
    for s, h, x, dec in map_lookup(E, st, m, key):
        mev(E, s, c, "map_contains", pl, m, key, x, hit=h == "hit")
        out += E.ret(s, TRUE if h == "hit" else FALSE)
    return out


@mb("insert")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    m = as_map(E.load(st, pl))
    key, val = keyval(E, st, c.args[1]), c.args[2]
    out = []
    for s, h, x, dec in map_lookup(E, st, m, key):
        E.store(s, pl, map_set(m, key, val))
        mev(E, s, c, "map_insert", pl, m, key, val, replaced=h == "hit", old=x, decided=dec)
        out += E.ret(s, some(x) if h == "hit" else NONE)
    return out


@mb("remove", "remove_entry")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    m = as_map(E.load(st, pl))
    key = keyval(E, st, c.args[1])
    out = []
    for s, h, x, dec in map_lookup(E, st, m, key):
        E.store(s, pl, map_set(m, key, GONE))
        mev(E, s, c, "map_remove", pl, m, key, x, hit=h == "hit")
        if c.d.endswith("entry"):
            x = tup(key, x) if x is not None else None
        out += E.ret(s, some(x) if h == "hit" else NONE)
    return out


@mb("clear", "drain")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    m = E.load(st, pl)
    E.store(st, pl, mk("map", EMPTYMAP))
    mev(E, st, c, "map_clear", pl, m)
    if c.d.endswith("drain"):
        return E.ret(st, nat("iter", map_items(E, st, as_map(m), None)))
    return E.ret(st, UNIT)


@mb("retain")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    m = as_map(E.load(st, pl))
    x = st.fresh("retained")
    E.push_native(st, "then", "retain", mapref(pl), mk("m", (m.a[0], x)), mk("m", tuple(tshow(t) for t in maptys(c))))
    a = E.alloc(st, "retval", mk("fld", x, ("f", 1)))
    return E.call_value(st, c.args[1], [E.valref(mk("fld", x, ("f", 0))), mk("ref", a, ())], c)


def _retain(E, st, data, v):
    r, bx, tys = data[1:4]
    base, x = bx.a[0]
    pl = (r.a[0], r.a[1])
    none = v is FALSE or E.decide(st, v) == 0
    if none and not any(contains_t(f, x) for f in st.facts):
        E.store(st, pl, mk("map", EMPTYMAP))
        E.emit(st, "map_clear", None, map=r, base=base, key=None, val=None, kt=tys.a[0][0], vt=tys.a[0][1])
    else:
        E.store(st, pl, x)
        E.emit(st, "map_retain", None, map=r, base=base, key=None, val=None, kt=tys.a[0][0], vt=tys.a[0][1])
    return E.ret(st, UNIT)


def contains_t(v, w):
    return w in syms_of(v)


THEN["retain"] = _retain


@mb("len")
def _(E, st, c):
    m = as_map(content(E, st, c.args[0]))
    if m.a[0] is EMPTYMAP and all(x is not GONE for k, x in m.a[1:]):
        ks = [k for k, x in m.a[1:]]
        if all(E.decide(st, E.cmp_eq(ks[i], ks[j])) == 0 for i in range(len(ks)) for j in range(i)):
            return E.ret(st, I(len(ks)))
    return E.ret(st, mk("app", "len", m))


@mb("is_empty")
def _(E, st, c):
    m = as_map(content(E, st, c.args[0]))
    if m.a[0] is EMPTYMAP:
        return E.ret(st, FALSE if len(m.a) > 1 else TRUE)
    return E.ret(st, E.cmp_eq(mk("app", "len", m), I(0)))


def map_items(E, st, m, pl):
    segs = []
    for k, x in m.a[1:]:
        if x is GONE:
            continue
        segs.append(("e", tup(k, x) if pl is None else tup(E.valref(k), mk("ref", pl[0], pl[1] + (("k", k),)))))
    if m.a[0] is not EMPTYMAP:
        segs.append(("any", mk("app", "items" if pl is None else "itemrefs", m.a[0])))
    return mk("seq", *segs)


@mb("iter", "iter_mut")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    return E.ret(st, nat("iter", map_items(E, st, as_map(E.load(st, pl)), pl)))


@mb("keys", "values", "values_mut", "into_values", "into_keys")
def _(E, st, c):
    n = c.d.rsplit("::", 1)[-1]
    if n.startswith("into"):
        its = map_items(E, st, as_map(content(E, st, c.args[0])), None)
    else:
        pl = E.canon_place(st, c.args[0])
        its = map_items(E, st, as_map(E.load(st, pl)), pl)
    j = 0 if "keys" in n else 1
    segs = []
    for s in its.a:
        segs.append(("e", s[1].a[2 + j]) if s[0] == "e" else ("any", mk("app", n, s[1])))
    return E.ret(st, nat("iter", mk("seq", *segs)))


ENTRY = "std::collections::hash::map::Entry"


@mb("entry")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    m = as_map(E.load(st, pl))
    if E.load(st, pl).op != "map":
        E.store(st, pl, m)
    key = keyval(E, st, c.args[1])
    d = c.destty[1] if c.destty[0] == "adt" else ENTRY
    vs = E.variants_of(d)
    names = [v[0] for v in vs] if vs else ["Occupied", "Vacant"]
    kt, vt = maptys(c)
    out = []
    for s, h, x, dec in map_lookup(E, st, m, key):
        mev(E, s, c, "map_contains", pl, m, key, x, hit=h == "hit")
        e = nat("entry", mapref(pl), key, mk("m", (tshow(kt), tshow(vt))))
        out += E.ret(s, adt(d, names.index("Occupied" if h == "hit" else "Vacant"), e))
    return out


def entry_parts(E, st, v):
    v = content(E, st, v)
    if is_adt(v):
        vs = E.variants_of(v.a[0][1])
        occ = (vs[v.a[1]][0] if vs else ("Occupied", "Vacant")[v.a[1]]) == "Occupied"
        v = v.a[2]
    else:
        occ = None
    if not is_nat(v, "entry"):
        return None
    r = v.a[2]
    return (r.a[0], r.a[1]), v.a[3], occ, v.a[4].a[0]


def ent_insert(E, st, c, pl, key, val, tys, replaced=False):
    m = as_map(E.load(st, pl))
    old = None
    for k, x in m.a[1:]:
        if k is key:
            old = x
    E.store(st, pl, map_set(m, key, val))
    E.emit(st, "map_insert", c, map=mapref(pl), base=m.a[0], key=key, val=val, kt=tys[0], vt=tys[1], replaced=replaced, old=old, decided=True)
    return mk("ref", pl[0], pl[1] + (("k", key),))


def occ_ref(E, st, c, pl, key, tys):
    m = as_map(E.load(st, pl))
    E.emit(st, "map_get", c, map=mapref(pl), base=m.a[0], key=key, val=E.proj(st, m, ("k", key)), kt=tys[0], vt=tys[1], hit=True)
    return mk("ref", pl[0], pl[1] + (("k", key),))


@b("~or_insert", "~or_default", "~insert_entry")
def _(E, st, c):
    p = entry_parts(E, st, c.args[0])
    if p is None:
        return None
    pl, key, occ, tys = p
    if occ and c.d.endswith("insert_entry"):
        return E.ret(st, ent_insert(E, st, c, pl, key, c.args[1], tys, replaced=True))
    if occ:
        return E.ret(st, occ_ref(E, st, c, pl, key, tys))
    v = c.args[1] if len(c.args) > 1 else None
    if v is None:
        v = default_of(E, st, c.a[1] if len(c.a) > 1 else T("unk")) or st.fresh("default")
    return E.ret(st, ent_insert(E, st, c, pl, key, v, tys))


@b("~or_insert_with", "~or_insert_with_key")
def _(E, st, c):
    p = entry_parts(E, st, c.args[0])
    if p is None:
        return None
    pl, key, occ, tys = p
    if occ:
        return E.ret(st, occ_ref(E, st, c, pl, key, tys))
    E.push_native(st, "then", "ent_ins", mapref(pl), key, mk("m", tys))
    return E.call_value(st, c.args[1], [E.valref(key)] if c.d.endswith("key") else [], c)


def _ent_ins(E, st, data, v):
    r, key, tys = data[1:4]
    return E.ret(st, ent_insert(E, st, None, (r.a[0], r.a[1]), key, v, tys.a[0]))


THEN["ent_ins"] = _ent_ins


def entry_method(E, st, c):
    p = entry_parts(E, st, c.args[0])
    if p is None:
        return None
    pl, key, occ, tys = p
    n = c.d.rsplit("::", 1)[-1]
    m = as_map(E.load(st, pl))
    cur = E.proj(st, m, ("k", key))
    if n == "key":
        return E.ret(st, E.valref(key))
    if n in ("get", "get_mut", "into_mut"):
        E.emit(st, "map_get", c, map=mapref(pl), base=m.a[0], key=key, val=cur, kt=tys[0], vt=tys[1], hit=True)
        return E.ret(st, mk("ref", pl[0], pl[1] + (("k", key),)))
    if n == "insert":
        if "Vacant" in c.d:
            return E.ret(st, ent_insert(E, st, c, pl, key, c.args[1], tys))
        ent_insert(E, st, c, pl, key, c.args[1], tys, replaced=True)
        return E.ret(st, cur)
    if n == "remove":
        E.store(st, pl, map_set(m, key, GONE))
        E.emit(st, "map_remove", c, map=mapref(pl), base=m.a[0], key=key, val=cur, kt=tys[0], vt=tys[1], hit=True)
        return E.ret(st, cur)
    return None


for n in ("key", "get", "get_mut", "into_mut", "insert", "remove"):
    for k in ("OccupiedEntry", "VacantEntry", "Entry"):
        B["std::collections::hash::map::%s::%s" % (k, n)] = entry_method
        B["std::collections::hash_map::%s::%s" % (k, n)] = entry_method


# ------------------------------------------------------------------ sequences
def seqv(v):
    """sequence view of a value"""
    if v.op == "seq":
        return v
    if v.op == "agg" and v.a[0][0] == "array":
        return mk("seq", *[("e", x) for x in v.a[2:]])
    return mk("seq", ("any", v))


def rest(t):
    if t.op == "app" and t.a[0] == "rest":
        return mk("app", "rest", t.a[1], t.a[2] + 1)
    return mk("app", "rest", t, 1)


def nth(t):
    if t.op == "app" and t.a[0] == "rest":
        return mk("fld", t.a[1], ("i", I(t.a[2])))
    return mk("fld", t, ("i", I(0)))


def instance(E, st, v):
    """a fresh copy of the repeated element v"""
    m = {}
    memo = {}

    def f(n):
        if n.op == "sym" and n.a[0] in ("wid",):
            if n not in m:
                m[n] = st.fresh(*((n.a[0],) + tuple(n.a[2:])))
            return m[n]
        return None
    return tmap(v, f, memo)


def nonempty(E, st, t):
    """[(st, bool)] whether opaque sequence t has an element left"""
    return E.fork_bool(st, mk("has", t, S("#")))


def pop_front(E, st, seq):
    """[(st, elem or None, rest seq)]"""
    out = []
    segs = seq.a
    i = 0
    while True:
        if i >= len(segs):
            out.append((st, None, mk("seq")))
            return out
        k, v = segs[i]
        if k == "e":
            out.append((st, v, mk("seq", *segs[i + 1:])))
            return out
        if k == "any":
            nxt = None
            for s, t in nonempty(E, st, v):
                if t:
                    out.append((s, nth(v), mk("seq", ("any", rest(v)), *segs[i + 1:])))
                else:
                    nxt = s
            if nxt is None:
                return out
            st = nxt
        else:
            s = st.copy()
            out.append((s, instance(E, s, v), mk("seq", *segs[i:])))
        i += 1


def pop_back(E, st, seq):
    out = []
    segs = seq.a
    i = len(segs) - 1
    while True:
        if i < 0:
            out.append((st, None, mk("seq")))
            return out
        k, v = segs[i]
        if k == "e":
            out.append((st, v, mk("seq", *segs[:i])))
            return out
        if k == "any":
            s = st.copy()
            e = mk("app", "last", v)
            out.append((s, e, mk("seq", *(segs[:i] + (("any", mk("app", "init", v)),)))))
        else:
            s = st.copy()
            out.append((s, instance(E, s, v), mk("seq", *segs[:i + 1])))
        i -= 1


SEQS = ("alloc::vec::Vec::", "alloc::collections::vec_deque::VecDeque::", "[T]::", "alloc::slice::", "core::slice::", "alloc::collections::linked_list::LinkedList::")


def sb(*names):
    return b(*[m + n for m in SEQS for n in names])


@sb("new", "with_capacity")
def _(E, st, c):
    return E.ret(st, mk("seq"))


def sget(E, st, r):
    pl = E.canon_place(st, r)
    v = E.load(st, pl)
    return pl, seqv(v)


@sb("push", "push_back")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    E.store(st, pl, mk("seq", *(s.a + (("e", c.args[1]),))))
    return E.ret(st, UNIT)


@sb("push_front")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    E.store(st, pl, mk("seq", ("e", c.args[1]), *s.a))
    return E.ret(st, UNIT)


@sb("pop_front")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    out = []
    for s2, x, r in pop_front(E, st, s):
        E.store(s2, pl, r)
        out += E.ret(s2, NONE if x is None else some(x))
    return out


@sb("pop", "pop_back")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    out = []
    for s2, x, r in pop_back(E, st, s):
        E.store(s2, pl, r)
        out += E.ret(s2, NONE if x is None else some(x))
    return out


@sb("insert")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    i = c.args[1]
    if i.op == "int" and all(g[0] == "e" for g in s.a[:i.a[0]]) and i.a[0] <= len(s.a):
        E.store(st, pl, mk("seq", *(s.a[:i.a[0]] + (("e", c.args[2]),) + s.a[i.a[0]:])))
    else:
        E.store(st, pl, st.fresh("seqins"))
    return E.ret(st, UNIT)


@sb("remove", "swap_remove")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    i = c.args[1]
    n = len(s.a)
    dq = "vec_deque" in c.d
    if i.op == "int" and all(g[0] == "e" for g in s.a):
        i = i.a[0]
        if i < n:
            x = s.a[i][1]
            if c.d.endswith("swap_remove"):
                segs = list(s.a)
                segs[i] = segs[-1]
                segs.pop()
            else:
                segs = s.a[:i] + s.a[i + 1:]
            E.store(st, pl, mk("seq", *segs))
            return E.ret(st, some(x) if dq else x)
        if dq:
            return E.ret(st, NONE)
        panic(E, st, c, "index out of bounds")
        return []
    if i.op == "int" and i.a[0] == 0 and not c.d.endswith("swap_remove"):
        out = []
        for s2, x, r in pop_front(E, st, s):
            if x is None:
                if dq:
                    out += E.ret(s2, NONE)
                else:
                    panic(E, s2, c, "index out of bounds")
                continue
            E.store(s2, pl, r)
            out += E.ret(s2, some(x) if dq else x)
        return out
    E.store(st, pl, st.fresh("seqrem"))
    x = st.fresh("removed")
    if not dq:
        E.emit(st, "maybe_panic", c, what="index")
        return E.ret(st, x)
    a, z = fork2(st)
    return E.ret(a, some(x)) + E.ret(z, NONE)


@sb("clear")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    E.store(st, pl, mk("seq"))
    return E.ret(st, UNIT)


@sb("reserve", "shrink_to_fit", "make_contiguous_")
def _(E, st, c):
    return E.ret(st, UNIT)


def wsize(x):
    return x.a[2]


def is_w(x):
    return is_nat(x, "w")


def lenof(E, st, v):
    """length term of a string / bytes / sequence value"""
    if v.op == "str":
        return I(len(v.a[0].encode("utf8")) if not any(ord(ch) > 255 for ch in v.a[0]) else len(v.a[0].encode("utf8")))
    if v.op == "buf":
        return v.a[2]
    if v.op == "seq":
        n = I(0)
        for k, x in v.a:
            if k == "e":
                n = ladd(n, wsize(x) if is_w(x) else I(1))
            elif k == "any" and len(v.a) == 1:
                return lenof(E, st, x)
            elif k == "any":
                n = ladd(n, lenof(E, st, x))
            else:
                return mk("app", "len", v)
        return n
    if v.op == "agg" and v.a[0][0] == "array":
        return I(len(v.a) - 2)
    if v.op == "app" and str(v.a[0]).startswith(("be:", "le:")) and v.a[0][3:] in SIZES:
        return I(SIZES[v.a[0][3:]])
    return mk("app", "len", v)


Engine.lenof = staticmethod(lenof)


@sb("len")
def _(E, st, c):
    return E.ret(st, lenof(E, st, content(E, st, c.args[0])))


@b("str::len", "alloc::string::String::len", "bytes::bytes::Bytes::len", "bytes::bytes_mut::BytesMut::len", "bytes::buf::buf_impl::Buf::remaining", "core::str::len")
def _(E, st, c):
    return E.ret(st, lenof(E, st, content(E, st, c.args[0])))


@sb("is_empty")
def _(E, st, c):
    v = content(E, st, c.args[0])
    s = seqv(v)
    if any(g[0] == "e" for g in s.a):
        return E.ret(st, FALSE)
    if not s.a:
        return E.ret(st, TRUE)
    if len(s.a) == 1 and s.a[0][0] == "any":
        return E.ret(st, E.neg(mk("has", s.a[0][1], S("#"))))
    return E.ret(st, mk("app", "ty:bool:is_empty", s))


@b("str::is_empty", "alloc::string::String::is_empty", "bytes::bytes::Bytes::is_empty", "bytes::bytes_mut::BytesMut::is_empty")
def _(E, st, c):
    return E.ret(st, E.cmp_eq(lenof(E, st, content(E, st, c.args[0])), I(0)))


@b("bytes::buf::buf_impl::Buf::has_remaining")
def _(E, st, c):
    return E.ret(st, E.neg(E.cmp_eq(lenof(E, st, content(E, st, c.args[0])), I(0))))


def elem_ref(E, st, pl, s, i):
    """reference to element i (int) of the sequence s at pl, plus states where it does not exist"""
    if i < len(s.a) and all(g[0] == "e" for g in s.a[:i + 1]):
        return [(st, mk("ref", pl[0], pl[1] + (("i", I(i)),)))]
    if all(g[0] == "e" for g in s.a):
        return [(st, None)]
    cur = [(st, s)]
    for k in range(i + 1):
        nx = []
        for s1, q in cur:
            if q is None:
                nx.append((s1, None))
                continue
            for s2, x, r in pop_front(E, s1, q):
                nx.append((s2, None if x is None else (r if k < i else x)))
        cur = nx
    return [(s1, None if x is None else E.valref(x)) for s1, x in cur]


@sb("get", "first", "front", "get_mut", "first_mut", "front_mut")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    n = c.d.rsplit("::", 1)[-1]
    i = c.args[1] if n.startswith("get") else I(0)
    if i.op != "int":
        if is_adt(i):
            return get_range(E, st, c, content(E, st, c.args[0]), i)
        a, z = fork2(st)
        return E.ret(a, some(E.valref(mk("fld", E.load(st, pl), ("i", i))))) + E.ret(z, NONE)
    out = []
    for s2, r in elem_ref(E, st, pl, s, i.a[0]):
        out += E.ret(s2, NONE if r is None else some(r))
    return out


def get_range(E, st, c, v, rg):
    out = []
    for s, x in slice_range(E, st, v, rg):
        out += E.ret(s, NONE if x is None else some(E.valref(x)))
    return out


@sb("last", "back", "last_mut", "back_mut")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    if s.a and s.a[-1][0] == "e" and all(g[0] == "e" for g in s.a):
        return E.ret(st, some(mk("ref", pl[0], pl[1] + (("i", I(len(s.a) - 1)),))))
    out = []
    for s2, x, r in pop_back(E, st, s):
        if x is None:
            out += E.ret(s2, NONE)
        elif c.d.endswith("_mut"):
            # materialise the popped element as the last explicit one
            h = E.alloc(s2, "lastelem", x)
            s2.imprecise = True
            out += E.ret(s2, some(mk("ref", h, ())))
        else:
            out += E.ret(s2, some(E.valref(x)))
    return out


@b("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    i = content(E, st, c.args[1])
    if v.op == "map" or (c.argtys and "HashMap" in tshow(c.argtys[0])):
        m = as_map(v)
        if v.op != "map":
            E.store(st, pl, m)
        out = []
        for s, h, x, dec in map_lookup(E, st, m, i):
            if h == "hit":
                out += E.ret(s, mk("ref", pl[0], pl[1] + (("k", i),)))
            else:
                panic(E, s, c, "missing key")
        return out
    if is_adt(i):
        out = []
        for s, x in slice_range(E, st, v, i):
            if x is None:
                panic(E, s, c, "slice index out of range")
            else:
                if c.d.endswith("index_mut"):
                    # what is written there is not followed
                    E.store(s, pl, s.fresh("overwritten"))
                out += E.ret(s, E.valref(x))
        return out
    if c.d.endswith("index_mut") and v.op == "seq" and any(is_w(x) for k, x in v.a):
        E.store(st, pl, st.fresh("overwritten"))
        return E.ret(st, mk("ref", E.alloc(st, "byte", st.fresh("byte")), ()))
    if i.op == "int":
        out = []
        if v.op in ("sym", "fld", "der", "app") and byte_seq(c):
            b_, off, ln = bufp(v)
            for s, t in E.fork_bool(st, E.ge0(ladd(ln, I(-i.a[0] - 1)))):
                if t:
                    out += E.ret(s, E.valref(mk("app", "get_u8", b_, ladd(off, i))))
                else:
                    panic(E, s, c, "index out of bounds")
            return out
        for s2, r in elem_ref(E, st, pl, seqv(v), i.a[0]):
            if r is None:
                panic(E, s2, c, "index out of bounds")
            else:
                out += E.ret(s2, r)
        return out
    E.emit(st, "maybe_panic", c, what="index")
    return E.ret(st, E.valref(mk("fld", v, ("i", i))))


def byte_seq(c):
    s = tshow(c.argtys[0]) if c.argtys else ""
    return "bytes::" in s or "u8" in s


RANGES = {"core::ops::range::Range": "ab", "core::ops::range::RangeTo": "b", "core::ops::range::RangeFrom": "a", "core::ops::range::RangeFull": "",
          "core::range::Range": "ab", "core::ops::range::RangeInclusive": "abi", "core::ops::range::RangeToInclusive": "bi"}


def slice_range(E, st, v, rg):
    """[(st, content or None when out of range)]"""
    k = RANGES.get(rg.a[0][1])
    if k is None:
        st.imprecise = True
        return [(st, mk("app", "slice", v, rg))]
    fs = rg.a[2:]
    if v.op == "seq" and all(g[0] == "e" and not is_w(g[1]) for g in v.a) and all(f.op == "int" for f in fs):
        lo = fs[0].a[0] if "a" in k else 0
        hi = fs[-1].a[0] if "b" in k else len(v.a)
        if lo <= hi <= len(v.a):
            return [(st, mk("seq", *v.a[lo:hi]))]
        return [(st, None)]
    b_, off, ln = bufp(v)
    lo = fs[0] if "a" in k else I(0)
    hi = (fs[1] if "a" in k else fs[0]) if "b" in k else ln
    if "i" in k:
        hi = ladd(hi, I(1))
    out = []
    for s, t in E.fork_bool(st, E.ge0(lsub(hi, lo))):
        if not t:
            out.append((s, None))
            continue
        for s2, t2 in E.fork_bool(s, E.ge0(lsub(ln, hi))):
            out.append((s2, mkbuf(b_, ladd(off, lo), lsub(hi, lo)) if t2 else None))
    return out


# ------------------------------------------------------------------ iterators
@sb("iter", "iter_mut")
def _(E, st, c):
    pl, s = sget(E, st, c.args[0])
    return E.ret(st, nat("iter", iter_refs(E, pl, s)))


def iter_refs(E, pl, s):
    segs = []
    exact = True
    for i, (k, x) in enumerate(s.a):
        if k == "e" and exact:
            segs.append(("e", mk("ref", pl[0], pl[1] + (("i", I(i)),))))
        elif k == "any":
            exact = False
            segs.append(("any", mk("app", "refs", x)))
        else:
            exact = False
            segs.append((k, E.valref(x)))
    return mk("seq", *segs)


@b("core::iter::traits::collect::IntoIterator::into_iter")
def _(E, st, c):
    v = c.args[0]
    if v.op == "ref":
        pl = E.canon_place(st, v)
        x = E.load(st, pl)
        if is_nat(x, "iter"):
            return E.ret(st, v)
        t = c.argtys[0] if c.argtys else T("unk")
        if "HashMap" in tshow(t)[:60] or x.op == "map":
            return E.ret(st, nat("iter", map_items(E, st, as_map(x), pl)))
        if x.op == "seq" or "Vec" in tshow(t) or "[" in tshow(t) or "slice" in tshow(t):
            return E.ret(st, nat("iter", iter_refs(E, pl, seqv(x))))
        return E.ret(st, v)
    if v.op == "box":
        v = content(E, st, v)
    if v.op == "map":
        return E.ret(st, nat("iter", map_items(E, st, v, None)))
    if v.op == "seq" or v.op == "agg" and v.a[0][0] == "array":
        return E.ret(st, nat("iter", seqv(v)))
    if is_adt(v, OPT):
        return E.ret(st, nat("iter", mk("seq", *([("e", v.a[2])] if v.a[1] == 1 else []))))
    t = c.a[0] if c.a else T("unk")
    nm = tshow(t)
    if v.op in ("sym", "fld", "der", "app"):
        if "HashMap" in nm[:60]:
            return E.ret(st, nat("iter", map_items(E, st, as_map(v), None)))
        if "Vec" in nm[:60]:
            return E.ret(st, nat("iter", seqv(v)))
    return E.ret(st, v)


@b("~into_iter")
def _(E, st, c):
    return B["core::iter::traits::collect::IntoIterator::into_iter"](E, st, c)


@sb("into_iter", "drain")
def _(E, st, c):
    if c.d.endswith("drain"):
        pl, s = sget(E, st, c.args[0])
        r = c.args[1] if len(c.args) > 1 else None
        if r is not None and is_adt(r) and RANGES.get(r.a[0][1]) != "":
            E.store(st, pl, st.fresh("drained"))
            st.imprecise = True
            return E.ret(st, nat("iter", mk("seq", ("any", st.fresh("drain")))))
        E.store(st, pl, mk("seq"))
        return E.ret(st, nat("iter", s))
    return E.ret(st, nat("iter", seqv(content(E, st, c.args[0]))))


def iter_next(E, st, pl):
    """[(st, Option value)] of the native iterator stored at pl"""
    v = E.load(st, pl)
    s = v.a[2]
    out = []
    for s2, x, r in pop_front(E, st, s):
        E.store(s2, pl, nat("iter", r))
        out.append((s2, NONE if x is None else some(x)))
    return out


@b("core::iter::traits::iterator::Iterator::next")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    if is_nat(v, "iter"):
        return multi(E, iter_next(E, st, pl))
    if is_adt(v):
        d = v.a[0][1]
        if d == "core::ops::range::Range":
            lo, hi = v.a[2], v.a[3]
            out = []
            for s, t in E.fork_bool(st, E.ge0(ladd(lsub(hi, lo), I(-1)))):
                if t:
                    E.store(s, pl, adt(d, 0, ladd(lo, I(1)), hi))
                    out += E.ret(s, some(lo))
                else:
                    out += E.ret(s, NONE)
            return out
        hit = E.value_impl("models::MIter", v)
        if hit:
            q = hit[0]["items"].get("mnext")
            return E.inline(st, E.F.bodies[q], EMPTY_ENV, [mk("ref", pl[0], pl[1])], c)
    if v.op in ("sym", "fld", "der", "app"):
        E.store(st, pl, nat("iter", mk("seq", ("any", v))))
        return multi(E, iter_next(E, st, pl))
    return None


@b("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    if is_nat(v, "iter"):
        out = []
        for s2, x, r in pop_back(E, st, v.a[2]):
            E.store(s2, pl, nat("iter", r))
            out += E.ret(s2, NONE if x is None else some(x))
        return out
    return None


@b("core::iter::traits::iterator::Iterator::rev")
def _(E, st, c):
    v = c.args[0]
    if is_nat(v, "iter") and all(g[0] == "e" for g in v.a[2].a):
        return E.ret(st, nat("iter", mk("seq", *reversed(v.a[2].a))))
    return E.ret(st, nat("iter", mk("seq", ("any", mk("app", "rev", v)))))


@b("futures_util::stream::iter::iter")
def _(E, st, c):
    v = c.args[0]
    if is_nat(v, "iter"):
        return E.ret(st, v)
    x = content(E, st, v) if v.op in ("box",) else v
    if x.op == "seq" or x.op == "agg" and x.a[0][0] == "array":
        return E.ret(st, nat("iter", seqv(x)))
    if is_adt(x):
        # an iterator: drain it through the model of collect
        E.push_native(st, "then", "mkiter")
        m = E.F.bodies["models::m_collect"]
        return E.inline(st, m, mkenv({"B": T("adt", "alloc::vec::Vec")}), [x], c)
    return E.ret(st, nat("iter", mk("seq", ("any", x))))


def _mkiter(E, st, data, v):
    return E.ret(st, nat("iter", seqv(v)))


THEN["mkiter"] = _mkiter


@b("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter", "itertools::Itertools::collect_vec")
def _(E, st, c):
    dst = c.destty
    v = c.args[0]
    if dst[0] == "adt" and dst[1] == "alloc::string::String":
        x = v
        # text assembled from characters of another text
        return E.ret(st, mk("app", "strcollect", strip_iter(E, st, x)))
    if is_nat(v, "iter") and all(g[0] == "e" for g in v.a[2].a) and dst[0] == "adt" and dst[1] != RES and dst[1] != OPT:
        return from_items(E, st, dst, [g[1] for g in v.a[2].a])
    if is_nat(v, "iter") and dst[0] == "adt" and dst[1].endswith(("::Vec", "::VecDeque")):
        return E.ret(st, v.a[2])
    if v.op == "seq" or v.op == "agg" and v.a[0][0] == "array":
        s = seqv(v)
        if all(g[0] == "e" for g in s.a):
            return from_items(E, st, dst, [g[1] for g in s.a])
    m = E.F.bodies["models::m_collect"]
    return E.inline(st, m, mkenv({"B": dst}), [v], c)


def strip_iter(E, st, x):
    n = part = 0
    while n < 8 and is_adt(x) and x.a[0][1].startswith("models::Iter"):
        part = part or "IterTake" in x.a[0][1]
        x = x.a[2]
        n += 1
    if is_nat(x, "iter") and len(x.a[2].a) == 1:
        x = x.a[2].a[0][1]
        return mk("app", "part", x) if part else x
    return x if x.op in ("sym", "fld", "der", "app", "str") else ANYMSG


@b("str::chars", "str::bytes", "str::char_indices", "core::str::chars")
def _(E, st, c):
    v = content(E, st, c.args[0])
    return E.ret(st, nat("iter", mk("seq", ("any", mk("app", "chars", v)))))


def coll_kind(t):
    if t[0] == "adt":
        if t[1].endswith(("HashMap", "BTreeMap")):
            return "map"
        if t[1] in (RES, OPT):
            return t[1]
        if t[1].endswith(("::Vec", "::VecDeque", "HashSet", "BytesMut", "Bytes")):
            return "seq"
        if t[1].endswith("String"):
            return "str"
    return "?"


@b("!models::m_collect_new")
def _(E, st, c):
    t = c.a[0] if c.a else T("unk")
    k = coll_kind(t)
    if k in (RES, OPT):
        i = coll_kind(t[2][0]) if t[2] else "?"
        x = mk("map", EMPTYMAP) if i == "map" else mk("seq")
        return E.ret(st, ok(x) if k == RES else some(x))
    return E.ret(st, mk("map", EMPTYMAP) if k == "map" else ANYMSG if k == "str" else mk("seq"))


@b("!models::m_collect_push")
def _(E, st, c):
    t = c.a[0] if c.a else T("unk")
    pl = E.deref(c.args[0])
    cur = E.load(st, pl)
    x = c.args[1]
    k = coll_kind(t)
    if k in (RES, OPT):
        out = []
        inner = cur.a[2] if len(cur.a) > 2 else mk("seq")
        good = 0 if k == RES else 1
        for s, i, p in split_result(E, st, x, k):
            if i == good:
                for s2, n in coll_push(E, s, inner, p):
                    E.store(s2, pl, ok(n) if k == RES else some(n))
                    out += E.ret(s2, TRUE)
            else:
                E.store(s, pl, err(p) if k == RES else NONE)
                out += E.ret(s, FALSE)
        return out
    out = []
    for s, n in coll_push(E, st, cur, x):
        E.store(s, pl, n)
        out += E.ret(s, TRUE)
    return out


def coll_push(E, st, cur, x):
    if cur.op == "map":
        if x.op == "agg":
            return [(s, m) for s, m, o in map_insert(E, st, cur, content(E, st, x.a[2]), x.a[3])]
        return [(s, m) for s, m, o in map_insert(E, st, cur, mk("fld", x, ("f", 0)), mk("fld", x, ("f", 1)))]
    if cur is ANYMSG:
        return [(st, cur)]
    s = seqv(cur)
    return [(st, mk("seq", *(s.a + (("e", x),))))]


@b("!models::m_collect_done")
def _(E, st, c):
    return E.ret(st, c.args[0])


@sb("extend", "append", "extend_from_slice", "extend_from_within_")
def _(E, st, c):
    return extend(E, st, c)


@b("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_trusted")
def _(E, st, c):
    return extend(E, st, c)


def extend(E, st, c):
    pl = E.canon_place(st, c.args[0])
    cur = E.load(st, pl)
    y = c.args[1]
    if c.d.endswith("append"):
        p2 = E.canon_place(st, y)
        s2 = seqv(E.load(st, p2))
        E.store(st, p2, mk("seq"))
        E.store(st, pl, mk("seq", *(seqv(cur).a + s2.a)))
        return E.ret(st, UNIT)
    x = content(E, st, y)
    if is_nat(x, "iter"):
        x = x.a[2]
    if x.op in ("seq",) or x.op == "agg" and x.a[0][0] == "array":
        if cur.op == "map":
            st.imprecise = True
            E.store(st, pl, st.fresh("ext"))
        else:
            E.store(st, pl, mk("seq", *(seqv(cur).a + seqv(x).a)))
        return E.ret(st, UNIT)
    if is_adt(x):
        m = E.F.bodies["models::m_extend"]
        t = c.argtys[0][2][0] if c.argtys and c.argtys[0][0] == "ref" else T("unk")
        return E.inline(st, m, mkenv({"B": t}), [mk("ref", pl[0], pl[1]), x], c)
    if cur.op == "map":
        E.store(st, pl, st.fresh("ext"))
    elif byte_seq(c):
        E.store(st, pl, wappend(E, st, cur, lenof(E, st, x), x))
    else:
        E.store(st, pl, mk("seq", *(seqv(cur).a + (("any", x),))))
    return E.ret(st, UNIT)


@sb("contains")
def _(E, st, c):
    return E.ret(st, boolsym(st, "contains"))


@b("core::slice::reverse", "[T]::reverse", "core::slice::sort", "alloc::slice::sort", "[T]::sort", "alloc::slice::sort_by", "[T]::sort_by",
   "alloc::slice::sort_by_key", "[T]::sort_by_key", "[T]::sort_unstable", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key",
   "core::slice::sort_unstable", "core::slice::sort_unstable_by", "core::slice::sort_unstable_by_key", "[T]::sort_by_cached_key", "alloc::slice::sort_by_cached_key")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    s = seqv(E.load(st, pl))
    if any(g[0] != "e" for g in s.a):
        return B["alloc::vec::Vec::dedup"](E, st, c)
    turned = mk("seq", *reversed(s.a))
    if c.d.endswith("reverse"):
        E.store(st, pl, turned)
        return E.ret(st, UNIT)
    if len(s.a) < 2:
        return E.ret(st, UNIT)
    # any order; two of them stand for all
    a, z = fork2(st)
    E.store(z, pl, turned)
    return E.ret(a, UNIT) + E.ret(z, UNIT)


@b("alloc::string::String::truncate", "alloc::string::String::retain", "alloc::string::String::insert", "alloc::string::String::insert_str",
   "str::make_ascii_lowercase", "str::make_ascii_uppercase", "core::str::make_ascii_lowercase", "core::str::make_ascii_uppercase",
   "alloc::string::String::pop", "alloc::string::String::remove", "alloc::string::String::replace_range")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    n = c.d.rsplit("::", 1)[-1]
    E.store(st, pl, mk("app", "text:" + n, E.load(st, pl)))
    if n == "pop":
        return E.ret(st.copy(), NONE) + E.ret(st, some(st.fresh("char")))
    return E.ret(st, st.fresh("char") if n == "remove" else UNIT)


@b("str::split", "core::str::split", "str::rsplit", "core::str::rsplit", "str::splitn", "core::str::splitn", "str::rsplitn", "core::str::rsplitn",
   "str::split_terminator", "core::str::split_terminator", "str::split_whitespace", "core::str::split_whitespace", "str::lines", "core::str::lines")
def _(E, st, c):
    x = E.valref(mk("app", "text:" + c.d.rsplit("::", 1)[-1], content(E, st, c.args[0])))
    return E.ret(st, nat("iter", mk("seq", ("e", x), ("star", x))))


@b("str::split_once", "core::str::split_once", "str::rsplit_once", "core::str::rsplit_once", "str::strip_prefix", "core::str::strip_prefix",
   "str::strip_suffix", "core::str::strip_suffix")
def _(E, st, c):
    n = c.d.rsplit("::", 1)[-1]
    x = E.valref(mk("app", "text:" + n, content(E, st, c.args[0])))
    a, z = fork2(st)
    return E.ret(a, some(tup(x, x) if n.endswith("once") else x)) + E.ret(z, NONE)


@sb("split_off", "split_at", "truncate", "resize", "sort", "dedup", "reverse")
def _(E, st, c):
    st.imprecise = True
    pl = E.canon_place(st, c.args[0])
    E.store(st, pl, st.fresh("seqop"))
    return E.ret(st, st.fresh("seqop"))


# ------------------------------------------------------------------ byte buffers
def bufp(v):
    """(base, offset, length) of byte content v"""
    if v.op == "buf":
        return v.a
    if v.op == "str":
        return v, I(0), I(len(v.a[0].encode("utf8")))
    return v, I(0), mk("app", "len", v)


def mkbuf(base, off, ln):
    if off is I(0):
        if base.op == "str":
            if ln is I(len(base.a[0].encode("utf8"))):
                return base
        elif ln is mk("app", "len", base):
            return base
    if ln is I(0):
        return mk("seq")
    return mk("buf", base, off, ln)


def wparts(E, st, v):
    """writer segments of byte content v"""
    if v.op == "seq":
        return v.a
    if v.op == "str" and not v.a[0]:
        return ()
    return (("e", nat("w", lenof(E, st, v), v)),)


def wappend(E, st, cur, size, x):
    return mk("seq", *(wparts(E, st, cur) + (("e", nat("w", size, x)),)))


def put(E, st, c, size, x):
    pl = E.canon_place(st, c.args[0])
    cur = E.load(st, pl)
    E.store(st, pl, wappend(E, st, cur, I(size), x))
    return E.ret(st, UNIT)


for _n, _s in (("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("u64", 8), ("i64", 8)):
    def _mk(nm, sz, le):
        def f(E, st, c):
            return put(E, st, c, sz, mk("app", ("le:" if le else "be:") + nm, c.args[1]))
        return f

    def _mg(nm, sz, le):
        def f(E, st, c):
            return get_int(E, st, c, sz, nm, le)
        return f
    B["bytes::buf::buf_mut::BufMut::put_" + _n] = _mk(_n, _s, False)
    B["bytes::buf::buf_mut::BufMut::put_" + _n + "_le"] = _mk(_n, _s, True)
    B["bytes::buf::buf_impl::Buf::get_" + _n] = _mg(_n, _s, False)
    B["bytes::buf::buf_impl::Buf::get_" + _n + "_le"] = _mg(_n, _s, True)
    B["bytes::buf::buf_impl::Buf::try_get_" + _n] = _mg(_n, _s, False)


def need(E, st, c, v, n):
    """[(st, True/False)] whether byte content v has at least n bytes"""
    return E.fork_bool(st, E.ge0(lsub(lenof(E, st, v), n)))


def get_int(E, st, c, sz, nm, le):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    tr = "::try_get_" in c.d
    out = []
    for s, t in need(E, st, c, v, I(sz)):
        if not t:
            if tr:
                out += E.ret(s, err(mk("cst", "TryGetError", "")))
            else:
                panic(E, s, c, "buffer underflow in get_" + nm, buf=v)
            continue
        for s2, x in take_int(E, s, c, pl, v, sz, nm, le):
            out += E.ret(s2, ok(x) if tr else x)
    return out


def take_int(E, st, c, pl, v, sz, nm, le):
    if v.op == "seq":
        if v.a and v.a[0][0] == "e" and is_w(v.a[0][1]):
            w = v.a[0][1]
            if w.a[2] is I(sz) and w.a[3].op == "app" and w.a[3].a[0] == ("le:" if le else "be:") + nm:
                E.store(st, pl, mk("seq", *v.a[1:]))
                return [(st, w.a[3].a[1])]
        E.store(st, pl, st.fresh("bufrest"))
        st.imprecise = True
        return [(st, st.fresh("getint", nm))]
    b_, off, ln = bufp(v)
    E.store(st, pl, mkbuf(b_, ladd(off, I(sz)), ladd(ln, I(-sz))))
    x = mk("app", "get_" + nm, b_, off) if not le else mk("app", "get_" + nm, mk("app", "le", b_), off)
    return [(st, x)]


def split_front(E, st, pl, v, n):
    """take n (<= len) bytes off the front of the content at pl"""
    if v.op == "seq":
        if n is I(0):
            return mk("seq")
        tot = I(0)
        for i, (k, x) in enumerate(v.a):
            if k != "e" or not is_w(x):
                break
            tot = ladd(tot, x.a[2])
            if tot is n or E.decide(st, E.cmp_eq(tot, n)) == 1:
                E.store(st, pl, mk("seq", *v.a[i + 1:]))
                if i == 0 and v.a[0][1].a[3].op != "app":
                    return v.a[0][1].a[3]
                if i == 0 and not v.a[0][1].a[3].a[0].startswith(("be:", "le:")):
                    return v.a[0][1].a[3]
                return mk("seq", *v.a[:i + 1])
        if n is lenof(E, st, v):
            E.store(st, pl, mk("seq"))
            return v
        E.store(st, pl, st.fresh("bufrest"))
        st.imprecise = True
        return st.fresh("bufpart")
    b_, off, ln = bufp(v)
    E.store(st, pl, mkbuf(b_, ladd(off, n), lsub(ln, n)))
    return mkbuf(b_, off, n)


@b("bytes::buf::buf_impl::Buf::copy_to_bytes", "bytes::bytes::Bytes::split_to", "bytes::bytes_mut::BytesMut::split_to")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    n = c.args[1]
    out = []
    if not E.numeric(n):
        E.emit(st, "maybe_panic", c, what="split")
        E.store(st, pl, st.fresh("bufrest"))
        return E.ret(st, st.fresh("bufpart"))
    for s, t in need(E, st, c, v, n):
        if t:
            out += E.ret(s, split_front(E, s, pl, v, n))
        else:
            panic(E, s, c, "buffer underflow in " + c.d.rsplit("::", 1)[-1], buf=v)
    return out


@b("bytes::bytes::Bytes::split_off", "bytes::bytes_mut::BytesMut::split_off", "bytes::bytes_mut::BytesMut::split")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    if c.d.endswith("::split"):
        E.store(st, pl, mk("seq"))
        return E.ret(st, v)
    n = c.args[1]
    out = []
    if v.op == "seq" or not E.numeric(n):
        st.imprecise = True
        E.store(st, pl, st.fresh("bufrest"))
        return E.ret(st, st.fresh("bufpart"))
    b_, off, ln = bufp(v)
    for s, t in need(E, st, c, v, n):
        if t:
            E.store(s, pl, mkbuf(b_, off, n))
            out += E.ret(s, mkbuf(b_, ladd(off, n), lsub(ln, n)))
        else:
            panic(E, s, c, "split_off out of range")
    return out


@b("bytes::buf::buf_impl::Buf::copy_to_slice", "bytes::buf::buf_impl::Buf::try_copy_to_slice")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    dp = E.canon_place(st, c.args[1])
    n = lenof(E, st, E.load(st, dp))
    tr = "::try_" in c.d
    out = []
    for s, t in need(E, st, c, v, n):
        if t:
            E.store(s, dp, split_front(E, s, pl, v, n))
            out += E.ret(s, ok(UNIT) if tr else UNIT)
        elif tr:
            out += E.ret(s, err(mk("cst", "TryGetError", "")))
        else:
            panic(E, s, c, "buffer underflow in copy_to_slice", buf=v)
    return out


@b("alloc::vec::from_elem")
def _(E, st, c):
    x, n = c.args
    if n.op == "int" and 0 <= n.a[0] <= 64:
        return E.ret(st, mk("seq", *([("e", x)] * n.a[0])))
    if not E.numeric(n):
        return None
    return E.ret(st, mk("buf", mk("app", "fill", x), I(0), n))


@b("bytes::buf::buf_impl::Buf::advance")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    n = c.args[1]
    out = []
    for s, t in need(E, st, c, v, n):
        if t:
            split_front(E, s, pl, v, n)
            out += E.ret(s, UNIT)
        else:
            panic(E, s, c, "buffer underflow in advance", buf=v)
    return out


@b("bytes::bytes::Bytes::truncate", "bytes::bytes_mut::BytesMut::truncate")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    v = E.load(st, pl)
    n = c.args[1]
    out = []
    for s, t in need(E, st, c, v, n):
        if t:
            if v.op == "seq":
                s.imprecise = True
                E.store(s, pl, s.fresh("trunc"))
            else:
                b_, off, ln = bufp(v)
                E.store(s, pl, mkbuf(b_, off, n))
        out += E.ret(s, UNIT)
    return out


@b("bytes::bytes::Bytes::slice", "bytes::bytes::Bytes::slice_ref")
def _(E, st, c):
    v = content(E, st, c.args[0])
    i = c.args[1]
    if not is_adt(i):
        return None
    out = []
    for s, x in slice_range(E, st, v, i):
        if x is None:
            panic(E, s, c, "slice out of range")
        else:
            out += E.ret(s, x)
    return out


@b("bytes::bytes::Bytes::clear", "bytes::bytes_mut::BytesMut::clear")
def _(E, st, c):
    E.store(st, E.canon_place(st, c.args[0]), mk("seq"))
    return E.ret(st, UNIT)


@b("bytes::bytes::Bytes::new", "bytes::bytes_mut::BytesMut::new", "bytes::bytes_mut::BytesMut::with_capacity")
def _(E, st, c):
    return E.ret(st, mk("seq"))


@b("alloc::string::String::new", "alloc::string::String::with_capacity")
def _(E, st, c):
    return E.ret(st, S(""))


@b("bytes::bytes_mut::BytesMut::reserve", "alloc::string::String::reserve")
def _(E, st, c):
    return E.ret(st, UNIT)


@b("bytes::buf::buf_mut::BufMut::put", "bytes::buf::buf_mut::BufMut::put_slice", "bytes::bytes_mut::BytesMut::extend_from_slice", "bytes::bytes_mut::BytesMut::unsplit")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    cur = E.load(st, pl)
    x = content(E, st, c.args[1])
    if x.op == "seq":
        E.store(st, pl, mk("seq", *(wparts(E, st, cur) + x.a)))
    else:
        E.store(st, pl, wappend(E, st, cur, lenof(E, st, x), x))
    return E.ret(st, UNIT)


@b("bytes::buf::buf_mut::BufMut::put_bytes")
def _(E, st, c):
    pl = E.canon_place(st, c.args[0])
    cur = E.load(st, pl)
    E.store(st, pl, wappend(E, st, cur, c.args[2], mk("app", "fill", c.args[1])))
    return E.ret(st, UNIT)


@b("core::io::cursor::Cursor::new", "std::io::cursor::Cursor::new")
def _(E, st, c):
    # a cursor reads the content it was given without consuming the original
    v = content(E, st, c.args[0])
    return E.ret(st, v)


@b("alloc::string::String::from_utf8", "core::str::converts::from_utf8", "str::from_utf8")
def _(E, st, c):
    v = content(E, st, c.args[0])
    a, z = fork2(st)
    u = mk("app", "utf8", v)
    g = a.facts.get(u)
    if v.op == "str":
        return E.ret(a, ok(v))
    return E.ret(a, ok(v if c.d.startswith("alloc") else E.valref(v))) + E.ret(z, err(z.fresh("utf8err")))


# ------------------------------------------------------------------ misc
@b("serde_json::de::from_slice", "serde_json::de::from_str", "serde_json::value::from_value", "serde_json::de::from_reader")
def _(E, st, c):
    v = content(E, st, c.args[0])
    a, z = fork2(st)
    return E.ret(a, ok(mk("app", "json_parse", v))) + E.ret(z, err(z.fresh("jsonerr")))


@b("serde_json::ser::to_string", "serde_json::ser::to_vec", "serde_json::value::to_value", "serde_json::ser::to_string_pretty")
def _(E, st, c):
    v = content(E, st, c.args[0])
    a, z = fork2(st)
    return E.ret(a, ok(mk("app", "json_text", v))) + E.ret(z, err(z.fresh("jsonerr")))


@b("core::net::socket_addr::SocketAddr::ip")
def _(E, st, c):
    return E.ret(st, mk("app", "ip", content(E, st, c.args[0])))


@b("core::net::socket_addr::SocketAddr::port")
def _(E, st, c):
    return E.ret(st, mk("app", "ty:u16:port", content(E, st, c.args[0])))


@b("core::net::socket_addr::SocketAddr::new")
def _(E, st, c):
    i, p = content(E, st, c.args[0]), content(E, st, c.args[1])
    if i.op == "app" and i.a[0] == "ip" and p.op == "app" and p.a[0] == "ty:u16:port" and i.a[1] is p.a[1]:
        return E.ret(st, i.a[1])
    return E.ret(st, mk("app", "sockaddr", i, p))


@b("core::net::socket_addr::SocketAddr::set_ip", "core::net::socket_addr::SocketAddr::set_port")
def _(E, st, c):
    if c.args[0].op != "ref":
        return None
    x = mk("app", c.d.rsplit("::", 1)[-1], content(E, st, c.args[0]), content(E, st, c.args[1]))
    E.store(st, E.deref(c.args[0]), x)
    return E.ret(st, UNIT)


@b("std::net::socket_addr::ToSocketAddrs::to_socket_addrs")
def _(E, st, c):
    v = content(E, st, c.args[0])
    a, z = fork2(st)
    return E.ret(a, ok(nat("iter", mk("seq", ("any", mk("app", "addrs", v)))))) + E.ret(z, err(z.fresh("ioerr")))


@b("core::time::Duration::from_secs", "core::time::Duration::from_millis")
def _(E, st, c):
    return E.ret(st, mk("app", c.d.rsplit("::", 1)[-1], *c.args))


@b("bb8::api::ErrorSink::boxed_clone")
def _(E, st, c):
    return E.ret(st, st.fresh("sink"))


@b("core::iter::traits::iterator::Iterator::size_hint")
def _(E, st, c):
    return E.ret(st, tup(I(0), NONE))


@b("core::any::type_name", "core::any::type_name_of_val")
def _(E, st, c):
    return E.ret(st, ANYMSG)


@b("core::fmt::Display::fmt", "core::fmt::Debug::fmt")
def _(E, st, c):
    # formatting of something unknown into a formatter
    r = c.args[1] if len(c.args) > 1 else None
    if r is not None and r.op == "ref":
        pl = E.canon_place(st, r)
        v = content(E, st, c.args[0])
        old = E.load(st, pl)
        if old.op == "seq" or old.op == "str":
            segs = old.a if old.op == "seq" else ((("e", old),) if old.a[0] else ())
            E.store(st, pl, flat_str(mk("seq", *(segs + (("e", v if v.op == "str" else ANYMSG),)))))
    return E.ret(st, ok(UNIT))


@b("poll:dynfut")
def _(E, st, c, v, pl):
    out = []
    E.emit(st, "dyn_wait", c, method=v.a[2].a[0], args=tuple(v.a[3:]))
    if E.cancel and not st.cancelled:
        s2 = st.copy()
        s2.cancelled = True
        out += E.ret(s2, PENDING)
    x = st.fresh("dynout:" + v.a[2].a[0])
    E.emit(st, "dyn_done", c, method=v.a[2].a[0], value=x, args=tuple(v.a[3:]))
    return E.ret(st, ready(x)) + out


# ------------------------------------------------------------------ summaries of the wire codecs
def codec_summaries(F, trait="frames::payloads::Codec"):
    """functions encoding and decoding a payload, replaced by their contract (the codecs are analysed on their own)"""
    out = {}
    for i in F.impls:
        if not (i["trait"] or "").endswith(trait):
            continue
        nm = (i["self"][1] or "?").rsplit("::", 1)[-1]
        q = i["items"].get("decode")
        if q:
            out[q] = sum_decode(nm)
            out["r:" + q] = out[q]
        q = i["items"].get("encode")
        if q:
            out[q] = sum_encode(nm)
    return out


def sum_decode(nm):
    def f(E, st, c):
        pl = E.canon_place(st, c.args[0])
        v = E.load(st, pl)
        z = st.copy()
        E.emit(st, "decode", c, type=nm, src=v)
        E.emit(z, "decode_failed", c, type=nm, src=v)
        E.store(st, pl, mk("app", "rest_of:" + nm, v))
        E.store(z, pl, mk("app", "rest_of:" + nm, v))
        return E.ret(st, ok(mk("app", "decoded:" + nm, v))) + E.ret(z, err(z.fresh("decodeerr")))
    return f


def sum_encode(nm):
    def f(E, st, c):
        pl = E.canon_place(st, c.args[1])
        v = c.args[0]
        z = st.copy()
        E.emit(st, "encode", c, type=nm, value=v)
        x = mk("app", "encoded:" + nm, v)
        E.store(st, pl, wappend(E, st, E.load(st, pl), mk("app", "len", x), x))
        E.emit(z, "encode_failed", c, type=nm, value=v)
        return E.ret(st, ok(UNIT)) + E.ret(z, err(z.fresh("encodeerr")))
    return f
