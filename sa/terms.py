"""Interned symbolic terms, linear forms and helpers."""


class N:
    __slots__ = ("op", "a", "_m", "_k", "_s")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._m = None
        self._k = None
        self._s = None

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    n = _tab.get(k)
    if n is None:
        n = N(op, a)
        _tab[k] = n
    return n


def I(n):
    return mk("int", int(n))


def S(s):
    return mk("str", s)


TRUE = I(1)
FALSE = I(0)
UNIT = mk("agg", ("tuple",), 0)
DONE = mk("done")
UNINIT = mk("uninit")
ANYMSG = mk("anymsg")


def agg(key, v, *f):
    return mk("agg", key, v, *f)


def tup(*f):
    return mk("agg", ("tuple",), 0, *f)


def adt(d, v, *f):
    return mk("agg", ("adt", d), v, *f)


def nat(kind, *f):
    return mk("agg", ("nat", kind), 0, *f)


def is_nat(v, kind=None):
    return v.op == "agg" and v.a[0][0] == "nat" and (kind is None or v.a[0][1] == kind)


def is_adt(v, d=None):
    return v.op == "agg" and v.a[0][0] == "adt" and (d is None or v.a[0][1] == d)


OPT = "core::option::Option"
RES = "core::result::Result"
POLL = "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"


def some(x):
    return adt(OPT, 1, x)


NONE = adt(OPT, 0)


def ok(x):
    return adt(RES, 0, x)


def err(x):
    return adt(RES, 1, x)


def ready(x):
    return adt(POLL, 0, x)


PENDING = adt(POLL, 1)

RNG = {
    "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
    "usize": (0, 2**64 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
    "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "bool": (0, 1), "len": (0, 2**63 - 1),
    "char": (0, 0x10ffff), "u128": (0, 2**128 - 1), "i128": (-2**127, 2**127 - 1), "slen": (0, 2**32),
    "num": (-2**100, 2**100),
}


def lin(c, items):
    """items: dict term->coef"""
    it = tuple(sorted(((t, k) for t, k in items.items() if k), key=lambda x: id(x[0])))
    if not it:
        return I(c)
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    return mk("lin", c, it)


def lparts(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def ladd(x, y, k=1):
    cx, dx = lparts(x)
    cy, dy = lparts(y)
    for t, c in dy.items():
        dx[t] = dx.get(t, 0) + k * c
    return lin(cx + k * cy, dx)


def lsub(x, y):
    return ladd(x, y, -1)


def lscale(x, k):
    c, d = lparts(x)
    return lin(c * k, {t: v * k for t, v in d.items()})


def trange(t):
    """interval of an integer term"""
    if t.op == "int":
        return t.a[0], t.a[0]
    if t.op == "lin":
        lo = hi = t.a[0]
        for x, k in t.a[1]:
            a, b = trange(x)
            if k > 0:
                lo += a * k
                hi += b * k
            else:
                lo += b * k
                hi += a * k
        return lo, hi
    if t.op == "sym" and len(t.a) > 2 and t.a[2] in RNG:
        return RNG[t.a[2]]
    if t.op == "app":
        f = t.a[0]
        if f == "len":
            return RNG["slen"]
        if f.startswith("cast:"):
            return RNG.get(f[5:], RNG["i128"])
        if f.startswith("ty:"):
            return RNG.get(f[3:], RNG["i128"])
        if f.startswith("get_"):
            return RNG.get(f[4:], RNG["i128"])
        if f == "min":
            a, b = trange(t.a[1]), trange(t.a[2])
            return min(a[0], b[0]), min(a[1], b[1])
        if f == "max":
            a, b = trange(t.a[1]), trange(t.a[2])
            return max(a[0], b[0]), max(a[1], b[1])
    if t.op == "discr":
        return 0, 255
    if t.op in ("cmp", "not"):
        return 0, 1
    return RNG["i128"]


def kids(n):
    """child terms inside the args of a node (args may nest tuples)"""
    out = n._k
    if out is None:
        out = []

        def w(x):
            if isinstance(x, N):
                out.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    w(y)
        for x in n.a:
            w(x)
        n._k = out = tuple(out)
    return out


def tmap(n, f, memo):
    """rebuild term n applying f to nodes (f(n) -> replacement or None to recurse)"""
    r = memo.get(n)
    if r is not None:
        return r
    r = f(n)
    if r is None:
        if n.op == "lin":
            c = n.a[0]
            acc = I(c)
            for t, k in n.a[1]:
                acc = ladd(acc, tmap(t, f, memo), k)
            r = acc
        else:
            ch = False

            def w(x):
                nonlocal ch
                if isinstance(x, N):
                    y = tmap(x, f, memo)
                    if y is not x:
                        ch = True
                    return y
                if isinstance(x, tuple):
                    return tuple(w(y) for y in x)
                return x
            na = tuple(w(x) for x in n.a)
            r = mk(n.op, *na) if ch else n
    memo[n] = r
    return r


def walk(n, seen, f):
    if n in seen:
        return
    seen.add(n)
    f(n)
    for k in kids(n):
        walk(k, seen, f)


def syms_of(n):
    if n._m is None:
        out = set()
        if n.op in ("sym",):
            out.add(n)
        for k in kids(n):
            out |= syms_of(k)
        n._m = frozenset(out)
    return n._m


def show(n, d=0):
    if d == 0 and isinstance(n, N):
        if n._s is None:
            n._s = _show(n, 0)
        return n._s
    return _show(n, d)


def _show(n, d=0):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, d + 1) for x in n) + ")"
        return str(n)
    if d > 6:
        return "…"
    o, a = n.op, n.a
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "agg":
        key, v, f = a[0], a[1], a[2:]
        nm = key[0] if key[0] in ("tuple", "array") else str(key[1]).split("::")[-1]
        if key[0] in ("closure", "cor"):
            nm = key[0] + ":" + key[1]
        if n is UNIT:
            return "()"
        return "%s#%s(%s)" % (nm, v, ", ".join(show(x, d + 1) for x in f))
    if o == "sym":
        return "$%s.%s" % (str(a[0]), a[1])
    if o == "fld":
        return "%s.%s" % (show(a[0], d + 1), "".join(str(z) for z in a[1]) if a[1][0] in "vf" else show(a[1]))
    if o == "der":
        return "*" + show(a[0], d + 1)
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1:]))
    if o == "ref":
        return "&%s%s" % (show(a[0], d + 1), show(a[1], d + 1) if a[1] else "")
    if o == "lin":
        return "(" + "+".join(["%s*%s" % (k, show(t, d + 1)) for t, k in a[1]] + [str(a[0])]) + ")"
    return o + "(" + ", ".join(show(x, d + 1) for x in a) + ")"
