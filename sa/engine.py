"""Path-sensitive abstract interpretation of the MIR facts, to a fixpoint.

A state is (control stack, abstract memory, facts about symbolic terms, monitor data).  Calls are inlined, futures
are run where they are polled, states are merged when equal up to renaming of symbols, and numbers, buffers and
sequences which keep changing at a loop head are widened.  Nothing is executed and no solver is used.
"""
import sys
import time
from terms import *
from facts import T, tshow
from effects import Effects

sys.setrecursionlimit(20000)


def L(d, i):
    return mk("L", d, i)


class St:
    __slots__ = ("stack", "mem", "facts", "ineqs", "mon", "ctr", "trace", "cancelled", "imprecise", "hist")

    def copy(self):
        s = St()
        s.stack = self.stack
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ineqs = self.ineqs
        s.mon = self.mon
        s.ctr = self.ctr
        s.trace = self.trace
        s.cancelled = self.cancelled
        s.imprecise = self.imprecise
        s.hist = self.hist
        return s

    def fresh(self, site, rng=None):
        self.ctr += 1
        if rng:
            return mk("sym", site, self.ctr, rng)
        return mk("sym", site, self.ctr)


_envs = {}


def mkenv(d):
    k = tuple(sorted(d.items(), key=lambda x: x[0]))
    if k not in _envs:
        _envs[k] = dict(d)
    return k


def envd(k):
    return _envs[k]


UNLK = mk("unlk")
mkenv({})
EMPTY_ENV = ()
FNTRAITS = ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce")


class Stop(Exception):
    pass


class Call:
    """one call site being evaluated"""
    __slots__ = ("d", "a", "r", "t", "k", "args", "argtys", "destty", "line", "body", "env", "bb", "target", "site", "fnv")

    def arg(self, i):
        return self.args[i]


class Engine:
    def __init__(self, facts, builtins, natives, monitors=(), cancel=False, max_steps=400000, max_time=200, opts=None):
        self.F = facts
        self.B = builtins
        self.NAT = natives
        self.monitors = list(monitors)
        for m in self.monitors:
            m.E = self
        self.cancel = cancel
        self.opts = opts or {}
        self.nonum = self.opts.get("nonum", False)
        self._sizey = {}
        self.collapse = self.opts.get("collapse", 0)
        self.collapsed = {}
        self.apart_calls = set()
        self.effects = Effects(facts)
        self._lump = {}
        self.errtypes = {i["self"][1] for i in facts.bytrait.get("core::error::Error", ()) if i["self"][0] == "adt"}
        self.max_steps = max_steps
        self.max_time = max_time
        self.reset()
        self.violations = {}
        self.unknown = {}
        self.funcs = set()
        self.sites = {}
        self.events = {}
        self.spawned = []
        self.spawn_seen = set()
        self.roots = []
        self.total_steps = 0

    def reset(self):
        self.visited = {}
        self.buckets = {}
        self.steps = 0
        self.exits = 0
        self.incomplete = False

    # ------------------------------------------------------------ memory
    def default(self, root):
        if root.op == "der":
            t = root.a[0]
            if t.op in ("str", "int", "seq", "map"):
                return t
            return root
        if root.op == "val":
            return root.a[0]
        if root.op == "L":
            return UNINIT
        return mk("fld", root, ("cell",)) if root.op == "sym" else root

    def load(self, st, pl):
        root, path = pl
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        for s in path:
            v = self.proj(st, v, s)
        return v

    def proj(self, st, v, s):
        o = v.op
        k = s[0]
        if o == "agg":
            if k == "v":
                return v if (v.a[1] == s[1] or v.a[0][0] != "adt") else UNINIT
            if k == "f":
                f = v.a[2:]
                if v.a[0][0] == "nat" and v.a[0][1] not in ("tuple",):
                    return mk("fld", v, s)
                return f[s[1]] if s[1] < len(f) else mk("fld", v, s)
            if k == "c" and v.a[0][0] == "array":
                f = v.a[2:]
                i = s[1] if not s[2] else len(f) - s[1]
                return f[i] if 0 <= i < len(f) else UNINIT
            if k == "i" and v.a[0][0] == "array" and s[1].op == "int":
                f = v.a[2:]
                return f[s[1].a[0]] if s[1].a[0] < len(f) else UNINIT
            if k == "inner" and is_nat(v, "lock"):
                return v.a[2]
            return mk("fld", v, s)
        if o in ("ref", "box", "arc"):
            if k == "f":
                return v
            return mk("fld", v, s)
        if o == "with":
            b, s2, x = v.a
            if s2 == s:
                return x
            if s2[0] == "v" and k == "v":
                return UNINIT
            if s2[0] == "f" and k == "f" or s2[0] != k:
                return self.proj(st, b, s)
            return mk("fld", v, s)
        if o == "map" and k == "k":
            r = self.map_find(st, v, s[1])
            if r is not None and r[0] == "hit":
                return r[1]
            return mk("fld", v.a[0], s)
        if o == "seq":
            segs = v.a
            if k == "c":
                if not s[2]:
                    if s[1] < len(segs) and all(g[0] == "e" for g in segs[:s[1] + 1]):
                        return segs[s[1]][1]
                elif len(segs) >= s[1] and all(g[0] == "e" for g in segs[len(segs) - s[1]:]):
                    return segs[len(segs) - s[1]][1]
            if k == "i" and s[1].op == "int":
                n = s[1].a[0]
                if n < len(segs) and all(g[0] == "e" for g in segs[:n + 1]):
                    return segs[n][1]
            return mk("fld", v, s)
        if o == "fld" and v.a[1][0] == "v" and k == "v":
            return v
        if o in ("uninit", "done"):
            return UNINIT
        i = s[1] if k == "i" else I(s[1]) if k == "c" and not s[2] else None
        if i is not None and i.op == "int":
            if o == "buf":
                return mk("app", "get_u8", v.a[0], ladd(v.a[1], i))
            if o == "sym" and v.a[0] == "payload" or o == "app" and str(v.a[0]).startswith("rest_of:"):
                return mk("app", "get_u8", v, i)
        return mk("fld", v, s)

    def upd(self, st, v, path, x):
        if not path:
            return x
        s, rest = path[0], path[1:]
        o, k = v.op, s[0]
        if o == "agg":
            if k == "v":
                return self.upd(st, v, rest, x)
            f = list(v.a[2:])
            if k == "f" and s[1] < len(f) and v.a[0][0] != "nat":
                f[s[1]] = self.upd(st, f[s[1]], rest, x)
                return mk("agg", v.a[0], v.a[1], *f)
            if k == "inner" and is_nat(v, "lock"):
                return nat("lock", self.upd(st, v.a[2], rest, x), *v.a[3:])
            if k in ("i", "c") and v.a[0][0] == "array":
                i = s[1].a[0] if k == "i" and s[1].op == "int" else s[1] if k == "c" and not s[2] else None
                if i is not None and i < len(f):
                    f[i] = self.upd(st, f[i], rest, x)
                    return mk("agg", v.a[0], v.a[1], *f)
        if o in ("ref", "box", "arc") and k == "f":
            return x
        if o == "map" and k == "k":
            old = self.proj(st, v, s)
            new = self.upd(st, old, rest, x)
            ents = [e for e in v.a[1:] if e[0] is not s[1]]
            return mk("map", v.a[0], (s[1], new), *ents)
        if o == "seq":
            i = None
            if k == "i" and s[1].op == "int":
                i = s[1].a[0]
            elif k == "c":
                i = s[1] if not s[2] else len(v.a) - s[1]
            if i is not None and 0 <= i < len(v.a) and all(g[0] == "e" for g in v.a):
                segs = list(v.a)
                segs[i] = ("e", self.upd(st, segs[i][1], rest, x))
                return mk("seq", *segs)
            return v
        if o == "with" and v.a[1] == s:
            return mk("with", v.a[0], s, self.upd(st, v.a[2], rest, x))
        if k == "v" and o in ("uninit",):
            return self.upd(st, mk("uninit"), rest, x)
        return mk("with", v, s, self.upd(st, self.proj(st, v, s), rest, x))

    def store(self, st, pl, x):
        root, path = pl
        if not path:
            st.mem[root] = x
            return
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        st.mem[root] = self.upd(st, v, path, x)

    def forget(self, st, ref):
        """what a shared lock protects is unknown once it is released"""
        if ref.op != "ref":
            return
        root, path = ref.a
        v = st.mem.get(root)
        if v is None:
            return

        def strip(v, path):
            if not path:
                return UNLK
            if v.op == "with":
                if v.a[1] == path[0]:
                    x = strip(v.a[2], path[1:])
                    b = v.a[0]
                    if x is None or x is UNLK or x is self.proj(st, b, path[0]):
                        return b
                    return mk("with", b, v.a[1], x)
                x = strip(v.a[0], path)
                return x if x is None else mk("with", x, v.a[1], v.a[2])
            if v.op in ("agg", "map"):
                return self.upd(st, v, path, UNLK)
            return v
        x = strip(v, path)
        if x is None or x is self.default(root):
            del st.mem[root]
        else:
            st.mem[root] = x

    def deref(self, v):
        """place a pointer-like value points to"""
        if v.op == "ref":
            return (v.a[0], v.a[1])
        if v.op in ("box", "arc"):
            return (v.a[0], ())
        return (mk("der", v), ())

    def mkref(self, pl):
        if not pl[1] and pl[0].op == "der":
            return pl[0].a[0]
        return mk("ref", pl[0], pl[1])

    def valref(self, v):
        return mk("ref", mk("val", v), ())

    def rd(self, st, v):
        """value behind (possibly several layers of) references"""
        n = 0
        while n < 8:
            if v.op in ("ref", "box", "arc"):
                v = self.load(st, self.deref(v))
            elif v.op == "sym" or v.op == "fld" or v.op == "der":
                r = mk("der", v)
                if r in st.mem:
                    v = st.mem[r]
                else:
                    return v
            else:
                return v
            n += 1
        return v

    def canon_place(self, st, v):
        """innermost place reached from pointer v through pointers to pointers"""
        pl = self.deref(v)
        n = 0
        while n < 8:
            x = self.load(st, pl)
            if x.op in ("ref", "box", "arc"):
                pl = self.deref(x)
            else:
                return pl
            n += 1
        return pl

    def alloc(self, st, site, v):
        r = st.fresh("heap:" + site)
        st.mem[r] = v
        return r

    # ------------------------------------------------------------ facts
    def decide(self, st, c):
        """truth of boolean term c in st: 1, 0 or None"""
        o = c.op
        if o == "int":
            return 1 if c.a[0] else 0
        if o == "not":
            r = self.decide(st, c.a[0])
            return None if r is None else 1 - r
        f = st.facts.get(c)
        if f is None and o == "eq":
            f = st.facts.get(mk("eq", c.a[1], c.a[0]))
        if f is not None and f[0] == "=":
            return 1 if f[1] else 0
        if o == "ge0":
            if self.prove(st, c.a[0]):
                return 1
            if self.prove(st, ladd(lscale(c.a[0], -1), I(-1))):
                return 0
            return None
        if o == "eq":
            a, b = c.a
            if a is b:
                return 1
            if a.op == "int" and b.op == "int":
                return 1 if a.a[0] == b.a[0] else 0
            if a.op == "str" and b.op == "str":
                return 1 if a.a[0] == b.a[0] else 0
            for x, y in ((a, b), (b, a)):
                if y.op == "int":
                    fx = st.facts.get(x)
                    if fx is not None:
                        if fx[0] == "=":
                            return 1 if fx[1] == y.a[0] else 0
                        if y.a[0] in fx[1]:
                            return 0
            if self.numeric(a) and self.numeric(b):
                d = lsub(a, b)
                if d.op == "int":
                    return 1 if d.a[0] == 0 else 0
                if self.prove(st, ladd(d, I(-1))) or self.prove(st, ladd(lscale(d, -1), I(-1))):
                    return 0
                if d.op == "lin" or True:
                    if self.prove(st, d) and self.prove(st, lscale(d, -1)):
                        return 1
            return None
        if o == "and":
            rs = [self.decide(st, x) for x in c.a]
            if any(r == 0 for r in rs):
                return 0
            if all(r == 1 for r in rs):
                return 1
        return None

    def numeric(self, t):
        if t.op in ("int", "lin"):
            return True
        return trange(t) != RNG["i128"]

    def prove(self, st, l):
        lo, hi = trange(l)
        if lo >= 0:
            return True
        if hi < 0 or not st.ineqs:
            return False
        # l >= 0 iff facts and -l-1 >= 0 inconsistent
        return not self.consistent(st.ineqs, ladd(lscale(l, -1), I(-1)))

    def consistent(self, ineqs, extra):
        """Fourier-Motzkin on the facts connected to extra; True when not refuted"""
        key = (ineqs, extra)
        r = _fmcache.get(key)
        if r is None:
            if len(_fmcache) > 200000:
                _fmcache.clear()
            r = _fm(ineqs, extra)
            _fmcache[key] = r
        return r

    def assume(self, st, c, val):
        """state refined with c == val, or None"""
        d = self.decide(st, c)
        if d is not None:
            if d != val:
                return None
            self.strengthen(st, c, d)
            return st
        o = c.op
        if o == "not":
            return self.assume(st, c.a[0], 1 - val)
        if self.nonum and self.sizey(c):
            return st
        if o == "and":
            if val:
                for x in c.a:
                    st = self.assume(st, x, 1)
                    if st is None:
                        return None
                return st
            st.facts[c] = ("=", 0)
            return st
        if o == "ge0":
            l = c.a[0] if val else ladd(lscale(c.a[0], -1), I(-1))
            st.ineqs = st.ineqs | {l}
            return st
        st.facts[c] = ("=", val)
        if o == "eq":
            a, b = c.a
            for x, y in ((a, b), (b, a)):
                if y.op == "int":
                    if val:
                        st.facts[x] = ("=", y.a[0])
                    else:
                        fx = st.facts.get(x)
                        if fx is None or fx[0] == "!":
                            st.facts[x] = ("!", (fx[1] if fx else frozenset()) | {y.a[0]})
            if self.numeric(a) and self.numeric(b):
                d = lsub(a, b)
                if val:
                    st.ineqs = st.ineqs | {d, lscale(d, -1)}
                else:
                    self.apart(st, d)
        return st

    def apart(self, st, d):
        """the number d is not 0"""
        if self.prove(st, d):
            x = ladd(d, I(-1))
        elif self.prove(st, lscale(d, -1)):
            x = ladd(lscale(d, -1), I(-1))
        else:
            return
        if not self.prove(st, x):
            st.ineqs = st.ineqs | {x}

    def tighten(self, st):
        """every known inequality of numbers as a linear fact"""
        if self.nonum:
            return
        n = None
        while n != st.ineqs:
            n = st.ineqs
            for t, v in list(st.facts.items()):
                if v[0] == "!" and self.numeric(t):
                    for x in sorted(v[1]):
                        self.apart(st, ladd(t, I(-x)))
                elif v[0] == "=" and not v[1] and t.op == "eq":
                    self.strengthen(st, t, 0)

    def strengthen(self, st, c, val):
        """a known inequality of numbers, as a linear fact"""
        if self.nonum:
            return
        while c.op == "not":
            c, val = c.a[0], 1 - val
        if c.op == "eq" and not val and self.numeric(c.a[0]) and self.numeric(c.a[1]):
            self.apart(st, lsub(c.a[0], c.a[1]))

    def sizey(self, c):
        """condition on sizes or counts (not followed when only control is of interest)"""
        if c.op == "ge0":
            return True
        r = self._sizey.get(c)
        if r is None:
            r = False
            todo = [c]
            while todo:
                x = todo.pop()
                if x.op == "app" and x.a[0] == "len" or x.op == "lin":
                    r = True
                    break
                if x.op in ("eq", "and", "not", "lin", "app"):
                    todo.extend(kids(x))
            self._sizey[c] = r
        return r

    def fork_bool(self, st, c):
        """[(st, 1/0)] feasible"""
        d = self.decide(st, c)
        if d is not None:
            self.strengthen(st, c, d)
            return [(st, d)]
        out = []
        for v in (1, 0):
            s = self.assume(st.copy(), c, v)
            if s is not None:
                out.append((s, v))
        return out

    def variants_of(self, d):
        a = self.F.adts.get(d)
        return a["variants"] if a else None

    def variant(self, st, v, d):
        """[(st, variant index)] of enum value v of adt d"""
        if v.op == "agg":
            return [(st, v.a[1])]
        vs = self.variants_of(d)
        if not vs:
            return []
        dn = mk("discr", v, d)
        f = st.facts.get(dn)
        out = []
        for i, (n, dv, fl) in enumerate(vs):
            if f is not None and (f[0] == "=" and f[1] != dv or f[0] == "!" and dv in f[1]):
                continue
            s = st.copy()
            s.facts[dn] = ("=", dv)
            out.append((s, i))
        return out

    def cmp_eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "int" and b.op == "int":
            return TRUE if a.a[0] == b.a[0] else FALSE
        if a.op == "str" and b.op == "str":
            return TRUE if a.a[0] == b.a[0] else FALSE
        if a.op in ("int", "str") or id(a) > id(b) and b.op not in ("int", "str"):
            a, b = b, a
        return mk("eq", a, b)

    def neg(self, c):
        if c.op == "int":
            return I(0 if c.a[0] else 1)
        if c.op == "not":
            return c.a[0]
        return mk("not", c)

    def ge0(self, l):
        lo, hi = trange(l)
        if lo >= 0:
            return TRUE
        if hi < 0:
            return FALSE
        return mk("ge0", l)

    # ------------------------------------------------------------ events
    def emit(self, st, kind, c, **kw):
        """run monitors; c is the Call (site) or None"""
        self.events[kind] = self.events.get(kind, 0) + 1
        site = self.site(st, c)
        self.sites.setdefault(kind, set()).add(site)
        st.trace = (st.trace, kind, site, kw, self.site_line(st, c))
        h = "on_" + kind
        for m in self.monitors:
            f = getattr(m, h, None)
            if f is not None:
                f(st, kw, c)
            f = getattr(m, "on_any", None)
            if f is not None:
                f(st, kind, kw, c)
        return st

    def site(self, st, c):
        # innermost frame of the analysed crate
        for fr in reversed(st.stack):
            if fr[0] == "b" and fr[1].crate != "models":
                return fr[1].path.replace("::{{{closure}}#0}", "")
        return "?"

    def site_line(self, st, c):
        for fr in reversed(st.stack):
            if fr[0] == "b" and fr[1].crate != "models":
                return fr[1].bbs[fr[3]][2]
        return "?"

    def callpath(self, st):
        out = []
        for fr in st.stack:
            if fr[0] == "b" and fr[1].crate != "models":
                out.append("%s (%s)" % (fr[1].path.replace("::{{{closure}}#0}", ""), fr[1].bbs[fr[3]][2]))
        return out

    def violation(self, st, prop, key, msg, c=None):
        k = (prop, key)
        if k in self.violations:
            return
        tr = []
        t = st.trace
        while t is not None and len(tr) < 60:
            tr.append("%s @ %s %s" % (t[1], t[2], {x: show(y)[:100] if isinstance(y, (N, tuple)) else y for x, y in t[3].items()}))
            t = t[0]
        tr.reverse()
        at, fn = self.site_line(st, c), self.site(st, c)
        t = st.trace
        while fn == "?" and t is not None:
            if t[2] != "?":
                at, fn = "%s, the last operation on the path (%s)" % (t[4], t[1]), "%s, at the end of %s" % (t[2], self.rootname)
            t = t[0]
        if fn == "?":
            fn = self.rootname
        fx = [show(k2)[:160] + "=" + str(f[1]) for k2, f in st.facts.items() if k2.op in ("discr", "eq", "has")][:30]
        self.violations[k] = {"property": prop, "key": key, "message": msg, "at": at,
                              "function": fn, "call_path": self.callpath(st), "trace": tr, "facts": fx,
                              "root": self.rootname}

    # ------------------------------------------------------------ running
    def run(self, name, st):
        self.reset()
        self.rootname = name
        t0 = time.time()
        if not st.stack:
            fut = st.mem.pop(L(0, 0))
            r = self.alloc(st, "task", fut)
            work = self.poll(st, fut, None, (r, ()))
        else:
            work = [st]
        while work:
            s = work.pop()
            self.steps += 1
            if self.steps > self.max_steps or time.time() - t0 > self.max_time:
                self.incomplete = True
                break
            try:
                nx = self.step(s)
            except Stop:
                continue
            work.extend(nx)
        self.total_steps += self.steps
        if "keep_visited" in self.opts and self.steps > self.opts.get("kept", 0):
            self.opts["kept"] = self.steps
            self.opts["keep_visited"] = self.visited
        self.roots.append({"root": name, "steps": self.steps, "exits": self.exits, "complete": not self.incomplete,
                           "seconds": round(time.time() - t0, 2)})

    def start(self, body, args, env=EMPTY_ENV, mem=None):
        st = St()
        st.stack = ()
        st.mem = dict(mem or {})
        st.facts = {}
        st.ineqs = frozenset()
        st.mon = {}
        st.ctr = 0
        st.trace = None
        st.cancelled = False
        st.imprecise = False
        st.hist = {}
        self.push(st, body, env, args)
        for m in self.monitors:
            m.init(st)
        return st

    def push(self, st, body, env, args):
        if len(st.stack) > 120:
            raise Stop()
        d = len(st.stack)
        st.stack = st.stack + (("b", body, env, 0, None),)
        self.funcs.add(body.path)
        for i, a in enumerate(args):
            st.mem[L(d, i + 1)] = a
        if body.spread is not None and body.spread >= 0 and len(args) < body.argc:
            pass

    def push_native(self, st, name, *data):
        st.stack = st.stack + (("n", name, data),)

    def pop_locals(self, st):
        d = len(st.stack) - 1
        b = st.stack[-1][1]
        for i in range(len(b.locals)):
            st.mem.pop(L(d, i), None)
        if st.hist and any(k[0] >= d for k in st.hist):
            st.hist = {k: v for k, v in st.hist.items() if k[0] < d}

    def setbb(self, st, bb):
        f = st.stack[-1]
        st.stack = st.stack[:-1] + ((f[0], f[1], f[2], bb, None),)

    def setpend(self, st, dest, target):
        f = st.stack[-1]
        st.stack = st.stack[:-1] + ((f[0], f[1], f[2], f[3], (dest, target)),)

    def ret(self, st, v):
        """deliver value v to the frame on top"""
        if not st.stack:
            self.exits += 1
            self.emit(st, "exit", None, value=v)
            return []
        f = st.stack[-1]
        if f[0] == "n":
            st.stack = st.stack[:-1]
            return self.NAT[f[1]](self, st, f[2], v)
        dest, target = f[4]
        if dest is not None:
            self.store(st, dest, v)
        if target is None:
            return []
        self.setbb(st, target)
        return [st]

    def ret_cancel(self, st):
        """a coroutine frame finished its cancellation clean-up"""
        if not st.stack:
            self.exits += 1
            self.emit(st, "exit_cancelled", None)
            return []
        f = st.stack[-1]
        if f[0] == "n" and f[1] == "poll":
            st.stack = st.stack[:-1]
            return self.ret(st, PENDING)
        if f[0] == "n":
            st.stack = st.stack[:-1]
            return self.ret_cancel(st)
        return []

    # ------------------------------------------------------------ operands
    def place(self, st, d, p):
        root, path = L(d, p[0]), ()
        for e in p[1]:
            k = e[0]
            if k == "*":
                root, path = self.deref(self.load(st, (root, path)))
            elif k == "i":
                path = path + (("i", self.load(st, (L(d, e[1]), ()))),)
            else:
                path = path + (e,)
        return (root, path)

    def const(self, st, o, env, body):
        c, ty = o[1], o[2]
        if isinstance(c, dict):
            if "int" in c:
                n = int(c["int"])
                if ty[0] == "adt":
                    # transparent constant of a newtype
                    return self.wrap_const(ty, n)
                return I(n)
            if "str" in c:
                return S(c["str"])
            if "fn" in c:
                return self.fnval(c["fn"], env)
            if "bytes" in c:
                return S(bytes(c["bytes"]).decode("latin1"))
            if "mem" in c:
                return self.mem_const(c["mem"], ty)
            if "static" in c:
                return mk("ref", mk("static", c["static"]), ())
            if "z" in c:
                return self.zst(ty, env)
        t = self.F.subst(ty, envd(env))
        if t[0] in ("fndef", "closure", "tuple"):
            return self.zst(ty, env)
        return mk("cst", str(o[3] or c), tshow(ty))

    def wrap_const(self, ty, n):
        a = self.F.adts.get(ty[1])
        if a and a["kind"] == "struct" and len(a["variants"][0][2]) == 1:
            ft = a["variants"][0][2][0][1]
            return adt(ty[1], 0, self.wrap_const(ft, n) if ft[0] == "adt" else I(n))
        if a and a["kind"] == "enum":
            for i, v in enumerate(a["variants"]):
                if v[1] == n and not v[2]:
                    return adt(ty[1], i)
        return I(n)

    def mem_const(self, bs, ty):
        if ty[0] == "adt":
            a = self.F.adts.get(ty[1])
            if a and a["kind"] == "struct" and len(a["variants"][0][2]) == 1 and len(bs) <= 8:
                return self.wrap_const(ty, int.from_bytes(bytes(bs), "little"))
            if a and a["kind"] == "enum" and len(bs) == 1:
                return self.wrap_const(ty, bs[0])
        try:
            return S(bytes(bs).decode("latin1"))
        except Exception:
            return mk("cst", "mem", tuple(bs))

    def zst(self, ty, env):
        t = self.F.subst(ty, envd(env))
        if t[0] == "fndef":
            return mk("fn", t[1], t[2], None)
        if t[0] == "closure":
            return agg(("closure", t[1], env), 0)
        if t[0] == "adt":
            return adt(t[1], 0)
        return UNIT

    def fnval(self, f, env):
        e = envd(env)
        a = tuple(self.F.subst(x, e) for x in f["a"])
        r = None
        if f["r"]:
            r = (f["r"][0], tuple(self.F.subst(x, e) for x in f["r"][1]))
        return mk("fn", f["d"], a, r, f["t"])

    def operand(self, st, d, o, env, body):
        k = o[0]
        if k in ("copy", "move"):
            p = o[1]
            if not p[1]:
                v = st.mem.get(L(d, p[0]))
                return UNINIT if v is None else v
            return self.load(st, self.place(st, d, p))
        if k == "const":
            return self.const(st, o, env, body)
        if k == "fn":
            return self.fnval(o[1], env)
        if k == "promoted":
            return self.promoted(st, o, env, body)
        return UNINIT

    def promoted(self, st, o, env, body):
        b = self.F.bodies.get(o[1], body)
        if o[2] >= len(b.promoted):
            return mk("cst", "promoted", o[1], o[2])
        pb = b.promoted[o[2]]
        # straight-line evaluation in a scratch frame
        sc = St()
        sc.stack = (("b", pb, env, 0, None),)
        sc.mem = {}
        sc.facts = {}
        sc.ineqs = frozenset()
        sc.ctr = 0
        sc.hist = {}
        try:
            for stx in pb.bbs[0][0]:
                self.stmt(sc, 0, stx, env, pb)
            if pb.bbs[0][1][0] == "return":
                return self.freeze(sc, sc.mem.get(L(0, 0), UNINIT))
        except Exception:
            pass
        return mk("cst", "promoted", o[1], o[2])

    def freeze(self, sc, v):
        if v.op == "ref" and v.a[0].op in ("L", "val"):
            x = self.freeze(sc, self.load(sc, (v.a[0], v.a[1])))
            return self.valref(x)
        if v.op == "agg":
            return mk("agg", v.a[0], v.a[1], *[self.freeze(sc, x) for x in v.a[2:]])
        return v

    def wrapint(self, n, ty):
        if ty[0] == "prim" and ty[1] in RNG:
            lo, hi = RNG[ty[1]]
            if lo <= n <= hi:
                return n
            m = hi - lo + 1
            return (n - lo) % m + lo
        return n

    def rvalue(self, st, d, r, env, body):
        k = r[0]
        if k == "use":
            return self.operand(st, d, r[1], env, body)
        if k == "ref":
            return self.mkref(self.place(st, d, r[1]))
        if k == "discr":
            pl = self.place(st, d, r[1])
            v = self.load(st, pl)
            t = self.F.subst(r[2], envd(env))
            return self.discr(st, v, t)
        if k == "agg":
            x, ops = r[1], r[2]
            vs = [self.operand(st, d, o, env, body) for o in ops]
            kk = x["k"]
            if kk == "adt":
                if x.get("u", -1) is not None and x.get("u", -1) >= 0:
                    return vs[0] if vs else UNINIT
                return adt(x["d"], x.get("v", 0), *vs)
            if kk == "tuple":
                return tup(*vs)
            if kk == "array":
                return agg(("array",), 0, *vs)
            if kk == "closure":
                return agg(("closure", x["d"], env), 0, *vs)
            if kk == "coroutine":
                return agg(("cor", x["d"], env), 0, *vs)
            return agg((kk,), 0, *vs)
        if k == "cast":
            v = self.operand(st, d, r[2], env, body)
            if r[1] == "IntToInt":
                return self.cast_int(st, v, r[4])
            if "ReifyFnPointer" in r[1] and v.op != "fn":
                t = self.F.subst(r[3], envd(env))
                if t[0] == "fndef":
                    return mk("fn", t[1], t[2], None)
            return v
        if k == "bin":
            a = self.operand(st, d, r[2], env, body)
            b = self.operand(st, d, r[3], env, body)
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            v = self.operand(st, d, r[2], env, body)
            if r[1] == "Not":
                if trange(v) == (0, 1) or v.op in ("ge0", "eq", "not", "and", "has") or (v.op == "int" and v.a[0] in (0, 1)):
                    return self.neg(v)
                return mk("app", "bnot", v)
            if r[1] == "Neg":
                return lscale(v, -1)
            if r[1] == "PtrMetadata" and v.op in ("ref", "box", "arc"):
                x = self.rd(st, v)
                if x.op in ("sym", "buf", "seq", "str", "app", "fld", "agg"):
                    return self.lenof(self, st, x)
            return mk("app", "un:" + r[1], v)
        if k == "repeat":
            v = self.operand(st, d, r[1], env, body)
            n = r[2]
            try:
                n = int(n)
            except Exception:
                n = -1
            if 0 <= n <= 64:
                return agg(("array",), 0, *([v] * n))
            return mk("seq", ("star", v))
        return st.fresh("other")

    def cast_int(self, st, v, ty):
        nm = ty[1] if ty[0] == "prim" else None
        if nm not in RNG:
            return v
        lo, hi = RNG[nm]
        if v.op == "int":
            return I(self.wrapint(v.a[0], ty))
        a, b = trange(v)
        if a >= lo and b <= hi:
            return v
        if self.prove(st, ladd(v, I(-lo))) and self.prove(st, lsub(I(hi), v)):
            return v
        if (a, b) == RNG["i128"]:
            return mk("app", "cast:" + nm, v)
        return mk("app", "cast:" + nm, v)

    def discr(self, st, v, t):
        if v.op == "agg" and v.a[0][0] == "adt":
            vs = self.variants_of(v.a[0][1])
            if vs and v.a[1] < len(vs):
                return I(vs[v.a[1]][1])
            return I(v.a[1])
        dn = mk("discr", v, t[1])
        f = st.facts.get(dn)
        if f is not None and f[0] == "=":
            return I(f[1])
        return dn

    def binop(self, st, op, a, b, ty):
        chk = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Add", "Sub", "Mul"):
            if o == "Add":
                r = ladd(a, b)
            elif o == "Sub":
                r = lsub(a, b)
            elif a.op == "int":
                r = lscale(b, a.a[0])
            elif b.op == "int":
                r = lscale(a, b.a[0])
            else:
                r = mk("app", "mul", a, b)
            nm = ty[1] if ty[0] == "prim" else None
            if chk:
                return tup(r, mk("ovf", nm or "?", r))
            if r.op == "int":
                r = I(self.wrapint(r.a[0], ty))
            return r
        if o in ("Eq", "Ne"):
            c = self.cmp_eq(a, b)
            return c if o == "Eq" else self.neg(c)
        if o == "Lt":
            return self.ge0(ladd(lsub(b, a), I(-1)))
        if o == "Le":
            return self.ge0(lsub(b, a))
        if o == "Gt":
            return self.ge0(ladd(lsub(a, b), I(-1)))
        if o == "Ge":
            return self.ge0(lsub(a, b))
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                if o == "BitAnd":
                    return I(x & y)
                if o == "BitOr":
                    return I(x | y)
                if o == "BitXor":
                    return I(x ^ y)
                if o == "Shl":
                    return I(self.wrapint(x << y, ty))
                if o == "Shr":
                    return I(x >> y)
                if o == "Div":
                    return I(x // y)
                if o == "Rem":
                    return I(x % y)
            except Exception:
                pass
        if o == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if y.op == "int" and y.a[0] == 0:
                    return I(0)
            if a is b:
                return a
            if trange(a) == (0, 1) and trange(b) == (0, 1):
                for x, y in ((a, b), (b, a)):
                    if x.op == "int":
                        return y if x.a[0] else FALSE
                return mk("and", a, b)
        if o == "BitOr":
            for x, y in ((a, b), (b, a)):
                if y.op == "int" and y.a[0] == 0:
                    return x
            if a is b:
                return a
        if o in ("BitAnd", "BitOr", "BitXor") and id(a) > id(b):
            a, b = b, a
        return mk("app", "bin:" + o + (":" + ty[1] if ty[0] == "prim" else ""), a, b)

    # ------------------------------------------------------------ steps
    def stmt(self, st, d, s, env, body):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, d, s[2], env, body)
            p = s[1]
            if not p[1]:
                st.mem[L(d, p[0])] = v
            else:
                self.store(st, self.place(st, d, p), v)
        elif k == "dead":
            st.mem.pop(L(d, s[1]), None)
        elif k == "setd":
            pass

    def step(self, st):
        """execute one basic block"""
        f = st.stack[-1]
        if f[0] == "n":
            return self.ret(st, UNIT)
        body, env, bb = f[1], f[2], f[3]
        d = len(st.stack) - 1
        if self.is_join(body, bb):
            st = self.join(st, body, bb)
            if st is None:
                return []
            f = st.stack[-1]
            env = f[2]
        stmts, term, line, cl = body.bbs[bb]
        for s in stmts:
            self.stmt(st, d, s, env, body)
        k = term[0]
        if k == "goto":
            self.setbb(st, term[1])
            return [st]
        if k == "switch":
            return self.switch(st, d, term, env, body)
        if k == "call":
            return self.call(st, d, term, env, body, bb)
        if k == "return":
            v = st.mem.get(L(d, 0), UNIT)
            if v is UNINIT:
                v = UNIT
            self.pop_locals(st)
            st.stack = st.stack[:-1]
            return self.ret(st, v)
        if k == "drop":
            pl = self.place(st, d, term[1])
            v = self.load(st, pl)
            t = self.F.subst(term[3], envd(env))
            self.setpend(st, None, term[2])
            return self.drop(st, pl, v, t)
        if k == "assert":
            return self.do_assert(st, d, term, env, body)
        if k == "yield":
            if not st.cancelled:
                return []
            self.setbb(st, term[3])
            return [st] if term[3] is not None else []
        if k == "cdrop":
            self.pop_locals(st)
            st.stack = st.stack[:-1]
            return self.ret_cancel(st)
        return []

    def do_assert(self, st, d, term, env, body):
        _, cond, exp, target, kind, ops = term
        c = self.operand(st, d, cond, env, body)
        if c.op == "ovf" and self.nonum:
            self.setbb(st, target)
            return [st]
        if c.op == "ovf":
            r = c.a[1]
            lo, hi = RNG.get(c.a[0], RNG["i128"])
            good = self.prove(st, ladd(r, I(-lo))) and self.prove(st, lsub(I(hi), r))
            if not good:
                bad = None
                # overflow upwards of 64-bit numbers is not considered: no peer can provide that many bytes
                if not self.prove(st, ladd(r, I(-lo))):
                    s2 = st.copy()
                    s2 = self.assume(s2, self.ge0(ladd(lscale(r, -1), I(lo - 1))), 1)
                    if s2 is not None:
                        self.emit(s2, "panic", None, what="arithmetic underflow", cond=r)
                if hi <= 2**32 and not self.prove(st, lsub(I(hi), r)):
                    s2 = st.copy()
                    s2 = self.assume(s2, self.ge0(ladd(r, I(-hi - 1))), 1)
                    if s2 is not None:
                        self.emit(s2, "panic", None, what="arithmetic overflow", cond=r)
                st.ineqs = st.ineqs | {x for x in (ladd(r, I(-lo)),) if trange(x)[0] < 0}
                if hi <= 2**32:
                    x = lsub(I(hi), r)
                    if trange(x)[0] < 0:
                        st.ineqs = st.ineqs | {x}
            self.setbb(st, target)
            return [st]
        out = []
        for s, v in self.fork_bool(st, c):
            if bool(v) == bool(exp):
                self.setbb(s, target)
                out.append(s)
            else:
                self.emit(s, "panic", None, what="assert " + str(kind), cond=c)
        return out

    def switch(self, st, d, term, env, body):
        _, op, cases, other, ty = term
        v = self.operand(st, d, op, env, body)
        if v.op == "int":
            n = v.a[0]
            for val, b in cases:
                if val == n or (val > 2**63 and val - 2**64 == n) or (val > 2**31 and val - 2**32 == n):
                    self.setbb(st, b)
                    return [st]
            self.setbb(st, other)
            return [st]
        if v.op in ("uninit", "done"):
            raise Stop()
        isbool = ty[0] == "prim" and ty[1] == "bool"
        if isbool:
            out = []
            tb = {val: b for val, b in cases}
            for s, x in self.fork_bool(st, v):
                b = tb.get(x, other)
                if b is None:
                    continue
                self.setbb(s, b)
                out.append(s)
            return out
        if v.op == "discr":
            f = st.facts.get(v)
            vs = self.variants_of(v.a[1])
            allv = [x[1] for x in vs] if vs else None
            out = []
            taken = set()
            for val, b in cases:
                taken.add(val)
                if f is not None and (f[0] == "=" and f[1] != val or f[0] == "!" and val in f[1]):
                    continue
                if allv is not None and val not in allv:
                    continue
                s = st.copy()
                s.facts[v] = ("=", val)
                self.setbb(s, b)
                out.append(s)
            if other is not None and not self.unreachable(body, other):
                if allv is not None:
                    rest = [x for x in allv if x not in taken and not (
                        f is not None and (f[0] == "=" and f[1] != x or f[0] == "!" and x in f[1]))]
                    if len(rest) <= 4:
                        for x in rest:
                            s = st.copy()
                            s.facts[v] = ("=", x)
                            self.setbb(s, other)
                            out.append(s)
                    else:
                        s = st.copy()
                        s.facts[v] = ("!", (f[1] if f and f[0] == "!" else frozenset()) | taken)
                        self.setbb(s, other)
                        out.append(s)
                else:
                    s = st.copy()
                    s.facts[v] = ("!", (f[1] if f and f[0] == "!" else frozenset()) | taken)
                    self.setbb(s, other)
                    out.append(s)
            return out
        out = []
        s0 = st
        for val, b in cases:
            c = self.cmp_eq(v, I(val))
            s = self.assume(s0.copy(), c, 1)
            if s is not None:
                self.setbb(s, b)
                out.append(s)
            s0 = self.assume(s0, c, 0)
            if s0 is None:
                return out
        if other is not None:
            self.setbb(s0, other)
            out.append(s0)
        return out

    def unreachable(self, body, bb):
        return body.bbs[bb][1][0] == "unreachable"

    # ------------------------------------------------------------ joins
    def is_join(self, body, bb):
        if body._join is None:
            self.analyse_cfg(body)
        return bb in body._join

    def analyse_cfg(self, body):
        succ = {}
        preds = {}
        for i, (s, t, ln, cl) in enumerate(body.bbs):
            k = t[0]
            if k == "goto":
                n = [t[1]]
            elif k == "switch":
                n = [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == "call":
                n = [t[4]] if t[4] is not None else []
            elif k == "drop":
                n = [t[2]]
            elif k == "assert":
                n = [t[3]]
            elif k == "yield":
                n = [t[3]] if t[3] is not None else []
            else:
                n = []
            succ[i] = n
            for x in n:
                preds.setdefault(x, set()).add(i)
        # loop heads by dfs
        heads = set()
        color = {}
        stack = [(0, iter(succ[0]))] if succ else []
        if succ:
            color[0] = 1
        while stack:
            n, it = stack[-1]
            for x in it:
                if color.get(x, 0) == 0:
                    color[x] = 1
                    stack.append((x, iter(succ[x])))
                    break
                elif color.get(x) == 1:
                    heads.add(x)
            else:
                color[n] = 2
                stack.pop()
        body._heads = heads
        body._join = {b for b, p in preds.items() if len(p) > 1} | heads
        # liveness
        borrowed = set()
        use = {}
        deff = {}
        for i, (s, t, ln, cl) in enumerate(body.bbs):
            u, df = set(), set()

            def usep(p):
                if p[0] not in df:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "i" and e[1] not in df:
                        u.add(e[1])

            def useo(o):
                if o[0] in ("copy", "move"):
                    usep(o[1])

            def defp(p):
                if p[1]:
                    usep(p)
                else:
                    df.add(p[0])
            for x in s:
                if x[0] == "=":
                    r = x[2]
                    if r[0] in ("use", "repeat"):
                        useo(r[1])
                    elif r[0] == "ref":
                        usep(r[1])
                        if not any(e[0] == "*" for e in r[1][1]):
                            borrowed.add(r[1][0])
                    elif r[0] == "discr":
                        usep(r[1])
                    elif r[0] == "agg":
                        for o in r[2]:
                            useo(o)
                    elif r[0] == "cast":
                        useo(r[2])
                    elif r[0] == "bin":
                        useo(r[2])
                        useo(r[3])
                    elif r[0] == "un":
                        useo(r[2])
                    defp(x[1])
            k = t[0]
            if k == "switch":
                useo(t[1])
            elif k == "call":
                useo(t[1])
                for o in t[2]:
                    useo(o)
                if t[3][1]:
                    usep(t[3])
            elif k == "drop":
                usep(t[1])
            elif k == "assert":
                useo(t[1])
            elif k == "return":
                u.add(0) if 0 not in df else None
            use[i], deff[i] = u, df
        live = {i: set() for i in succ}
        ch = True
        order = sorted(succ, reverse=True)
        while ch:
            ch = False
            for i in order:
                out = set()
                for x in succ[i]:
                    out |= live[x]
                t = body.bbs[i][1]
                if t[0] == "call" and not t[3][1]:
                    out = out - {t[3][0]}
                n = use[i] | (out - deff[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        body._live = (live, borrowed)

    def join(self, st, body, bb):
        d = len(st.stack) - 1
        live, borrowed = body._live
        lv = live.get(bb, ())
        for i in range(len(body.locals)):
            n = L(d, i)
            if n in st.mem and i not in lv and i not in borrowed:
                del st.mem[n]
        self.gc(st)
        key = self.canon(st)
        ck = self.stack_key(st)
        vis = self.visited.setdefault(ck, {})
        if key in vis:
            return None
        heads = bb in body._heads
        if heads:
            if len(st.hist.get((d, body.path, bb), ())) >= self.opts.get("drop_after", 1000):
                # loops are unrolled so many times only
                self.dropped = True
                return None
            w = self.widen(st, (d, body.path, bb))
            if w is not None:
                st = w
                self.gc(st)
                key = self.canon(st)
                if key in vis:
                    return None
        if not heads or len(vis) >= self.opts.get("join_after", 3) + 3:
            st = self.limit(st, ck)
            key = self.canon(st)
            if key in vis:
                return None
        vis[key] = 1
        if len(vis) > self.opts.get("max_disj", 4000):
            self.incomplete = True
            return None
        return st

    def limit(self, st, ck):
        """beyond a few states of the same shape at one point, keep only what they have in common"""
        mk_ = tuple(m.key(st) for m in self.monitors)
        bk = (ck, self.skeleton(st), mk_, st.cancelled, st.imprecise)
        n, reps = self.buckets.get(bk, (0, ()))
        self.tighten(st)
        if n >= self.opts.get("join_after", 3):
            for om, of, oi in reps:
                g = Gen(self, st, True)
                nm = g.state(om)
                if nm is None:
                    continue
                st2 = st.copy()
                st2.mem = nm
                ofr = {g.back(c): v for c, v in of.items()}
                oir = frozenset(g.back(l) for l in oi)
                st2.facts = {c: v for c, v in st.facts.items() if ofr.get(c) == v}
                st2.ineqs = (st.ineqs & oir) | frozenset(g.newineqs(st))
                if not self.nonum:
                    st2.ineqs |= g.common(st, oi, True)
                    self.tighten(st2)
                self.gc(st2)
                self.canon(st2)
                self.buckets[bk] = (n + 1, ((dict(st2.mem), dict(st2.facts), st2.ineqs),) + tuple(r for r in reps if r[0] is not om))
                return st2
        self.buckets[bk] = (n + 1, (reps + ((dict(st.mem), dict(st.facts), st.ineqs),))[-6:])
        return st

    def lumped(self, d):
        """types whose variants need not be told apart once there are many states: errors and large plain enums"""
        r = self._lump.get(d)
        if r is None:
            r = False
            if self.nonum:
                vs = self.variants_of(d)
                if d in self.errtypes:
                    r = True
                elif vs and len(vs) > 2 and all(not v[2] for v in vs) and d.split("::")[0] in self.F.crates and not d.endswith("::Type"):
                    r = True
            self._lump[d] = r
        return r

    def skeleton(self, st):
        """constructors of the values in the locals and cells"""
        def sk(v, n):
            o = v.op
            if o == "agg":
                k = v.a[0]
                if k[0] == "nat":
                    return (k[1],)
                if k[0] == "adt" and self.lumped(k[1]):
                    return "*"
                if n > 3:
                    return (k[1] if len(k) > 1 else k[0], v.a[1])
                return (k[1] if len(k) > 1 else k[0], v.a[1]) + tuple(sk(x, n + 1) for x in v.a[2:])
            if o == "seq" and self.nonum:
                return "*" if v.a else "empty"
            if o in ("box", "arc", "ref", "seq", "map", "uninit", "done", "closure"):
                return o
            return "*"
        return tuple((r.a, sk(v, 0)) for r, v in sorted(((r, v) for r, v in st.mem.items() if r.op == "L"), key=lambda x: x[0].a))

    def stack_key(self, st):
        return tuple((f[1], f[2], f[3], f[4][1] if f[4] else None) if f[0] == "b" else f[1] for f in st.stack)

    def gc(self, st):
        """drop unreachable heap cells and facts about unreachable terms"""
        mem = st.mem
        seen = set()
        todo = []
        syms = set()

        def visit(n):
            if n in seen:
                return
            seen.add(n)
            if n.op == "sym":
                syms.add(n)
            if n in mem and n.op != "L":
                todo.append(mem[n])
            for k in kids(n):
                visit(k)

        def wt(x):
            if isinstance(x, N):
                visit(x)
            elif isinstance(x, tuple):
                for y in x:
                    wt(y)
        for r, v in mem.items():
            if r.op == "L":
                visit(v)
        for f in st.stack:
            if f[0] == "n":
                wt(f[2])
            elif f[4] is not None:
                wt(f[4][0])
        for m in self.monitors:
            m.compact(st)
            if not m.weak:
                wt(m.terms(st))
        # symbolic places that were written: keep when their base is reachable
        changed = True
        while changed:
            changed = False
            while todo:
                visit(todo.pop())
                changed = True
            for r, v in mem.items():
                if r.op != "L" and r not in seen and r.op in ("der", "static", "val") and self.base_reach(r, seen):
                    visit(r)
                    changed = True
        for m in self.monitors:
            if m.weak:
                m.prune(st, syms)
        for r in [r for r in mem if r.op != "L" and r not in seen]:
            del mem[r]
        if st.facts:
            drop = [c for c in st.facts if not self.fact_live(c, seen, syms)]
            for c in drop:
                del st.facts[c]
        if st.ineqs:
            st.ineqs = frozenset(l for l in st.ineqs if all(s in syms for s in syms_of(l)))

    def base_reach(self, r, seen):
        if r.op == "static":
            return True
        if r.op == "val":
            return False
        t = r.a[0]
        while True:
            if t in seen:
                return True
            if t.op in ("fld", "der") or t.op == "app" and len(t.a) > 1 and isinstance(t.a[1], N):
                t = t.a[0] if t.op != "app" else t.a[1]
                continue
            return t.op == "sym" and str(t.a[0]).startswith("arg") or t in seen

    def fact_live(self, c, seen, syms):
        if c.op in ("discr", "eq", "has", "and"):
            for x in c.a:
                if isinstance(x, N) and x.op not in ("int", "str") and not self.reach1(x, seen):
                    return False
            return True
        return self.reach1(c, seen)

    def reach1(self, x, seen):
        while True:
            if x in seen:
                return True
            if x.op in ("fld", "der"):
                x = x.a[0]
                continue
            if x.op in ("app", "lin", "eq", "discr", "with", "ge0", "agg", "ref", "map"):
                ks = kids(x)
                return bool(ks) and all(self.reach1(k, seen) for k in ks) or (not ks)
            return x.op in ("int", "str", "fn", "cst") or (x.op == "sym" and str(x.a[0]).startswith("arg"))

    def roots_sorted(self, st):
        return sorted((r for r in st.mem if r.op == "L"), key=lambda r: (r.a[0], r.a[1]))

    def canon(self, st):
        """rename fresh symbols by order of discovery; returns hashable key and leaves st renamed"""
        ren = {}
        cnt = {}
        order = []
        seen = set()
        mem = st.mem

        def visit(n):
            if n in seen:
                return
            seen.add(n)
            if n.op == "sym" and not (isinstance(n.a[0], str) and n.a[0].startswith("arg")):
                s = n.a[0]
                i = cnt.get(s, 0)
                cnt[s] = i + 1
                ren[n] = mk("sym", s, i, *n.a[2:])
            for k in (kids(n) if n.op != "lin" else ()):
                visit(k)
            if n.op == "lin":
                ks = sorted((t for t, k in n.a[1]), key=show)
                for k in ks:
                    visit(k)
            if n in mem and n.op != "L":
                visit(mem[n])

        def wt(x):
            if isinstance(x, N):
                visit(x)
            elif isinstance(x, tuple):
                for y in x:
                    wt(y)
        loc = self.roots_sorted(st)
        for r in loc:
            visit(mem[r])
        for f in st.stack:
            if f[0] == "n":
                wt(f[2])
            elif f[4] is not None:
                wt(f[4][0])
        for m in self.monitors:
            wt(m.terms(st))
        others = sorted((r for r in mem if r.op != "L" and r not in seen), key=show)
        for r in others:
            visit(r)
        for c in sorted((c for c in st.facts if syms_of(c) - seen), key=show):
            visit(c)
        for c in sorted((c for c in st.ineqs if syms_of(c) - seen), key=show):
            visit(c)
        if any(a is not b for a, b in ren.items()):
            # two-phase to avoid clashes: tmap replaces simultaneously
            memo = {}
            g = ren.get

            def rn(n):
                if n.op == "sym":
                    return g(n, n)
                if not syms_of(n):
                    return n
                return None

            def m(x):
                if isinstance(x, N):
                    return tmap(x, rn, memo)
                if isinstance(x, tuple):
                    return tuple(m(y) for y in x)
                return x
            st.mem = {m(r): m(v) for r, v in mem.items()}
            st.facts = {m(c): v for c, v in st.facts.items()}
            st.ineqs = frozenset(m(l) for l in st.ineqs)
            st.stack = tuple(
                ("n", f[1], m(f[2])) if f[0] == "n" else (f[0], f[1], f[2], f[3], (m(f[4][0]), f[4][1]) if f[4] else None)
                for f in st.stack)
            for mo in self.monitors:
                mo.rename(st, m)
        st.ctr = max(list(cnt.values()) + [0]) + 1
        return (frozenset(st.mem.items()), frozenset(st.facts.items()), st.ineqs,
                tuple(m.key(st) for m in self.monitors), st.cancelled, st.imprecise,
                tuple(f[2] if f[0] == "n" else (f[4][0] if f[4] else None) for f in st.stack))

    # ------------------------------------------------------------ widening
    def widen(self, st, hk):
        """compare with the states which passed this loop head before on the same path; generalise what keeps changing"""
        snaps = st.hist.get(hk, ())
        K = self.opts.get("widen_after", 2)
        out = None
        self.tighten(st)
        if len(snaps) >= K:
            for om, of, oi, omon in reversed(snaps[-4:]):
                if omon != tuple(m.key(st) for m in self.monitors):
                    continue
                g = Gen(self, st)
                nm = g.state(om)
                if nm is None:
                    continue
                st2 = st.copy()
                st2.mem = nm
                ofr = {g.back(c): v for c, v in of.items()}
                oir = frozenset(g.back(l) for l in oi)
                st2.facts = {c: v for c, v in st.facts.items() if ofr.get(c) == v}
                st2.ineqs = frozenset(l for l in st.ineqs if l in oir or not (self.atoms_tracked(l))) & oir | frozenset(g.newineqs(st))
                if not self.nonum:
                    st2.ineqs |= g.common(st, oi, False)
                    self.tighten(st2)
                out = st2
                break
        src = out or st
        h = dict(st.hist)
        h[hk] = (snaps + ((dict(src.mem), dict(src.facts), src.ineqs, tuple(m.key(src) for m in self.monitors)),))[-max(6, K):]
        st.hist = h
        if out is not None:
            out.hist = h
        return out

    def atoms_tracked(self, l):
        return True

    # ------------------------------------------------------------ calls
    def call(self, st, d, term, env, body, bb):
        _, fo, args, dest, target, argtys, destty = term
        c = Call()
        c.line = body.bbs[bb][2]
        c.body, c.env, c.bb, c.target = body, env, bb, target
        c.site = "%s:%d" % (body.path.split("::", 1)[-1], bb)
        e = envd(env)
        c.argtys = tuple(self.F.subst(t, e) for t in argtys)
        c.destty = self.F.subst(destty, e)
        fv = self.operand(st, d, fo, env, body)
        c.args = [self.operand(st, d, a, env, body) for a in args]
        dp = self.place(st, d, dest)
        self.setpend(st, dp, target)
        return self.call_value(st, fv, c.args, c)

    def call_value(self, st, fv, args, c):
        """call a function value; result is delivered to the top frame"""
        n = 0
        while fv.op in ("ref", "box", "arc") and n < 6:
            fv = self.load(st, self.deref(fv))
            n += 1
        if fv.op == "agg" and fv.a[0][0] == "closure":
            return self.call_closure(st, fv, None, args, c)
        if fv.op == "fn":
            return self.call_fn(st, fv, args, c)
        return self.unknown_call(st, "<fnptr>", args, c)

    def call_closure(self, st, fv, ref, args, c):
        b = self.F.bodies.get(fv.a[0][1])
        if b is None:
            return self.unknown_call(st, fv.a[0][1], args, c)
        t1 = b.locals[1]
        if t1[0] == "ref":
            self_arg = ref if ref is not None else self.mkref((self.alloc(st, "clo", fv), ()))
        else:
            self_arg = fv
        self.push(st, b, fv.a[0][2], [self_arg] + list(args))
        return [st]

    def call_fn(self, st, fv, args, c):
        d, ta = fv.a[0], fv.a[1]
        r = fv.a[2] if len(fv.a) > 2 else None
        tr = fv.a[3] if len(fv.a) > 3 else None
        c.d, c.a, c.r, c.t, c.args = d, ta, r, tr, args
        F = self.F
        # constructors used as functions
        if d.endswith("::{{{constructor}}#0}") or (d in F.bodies and F.bodies[d].ctor):
            b = F.bodies.get(d)
            if b is not None and b.ctor:
                return self.ret(st, adt(b.ctor, b.v, *args))
            p = d[:-len("::{{{constructor}}#0}")]
            base, vn = p.rsplit("::", 1)
            for dd in (base, p):
                vs = self.variants_of(dd)
                if vs:
                    for i, v in enumerate(vs):
                        if v[0] == vn:
                            return self.ret(st, adt(dd, i, *args))
        h = self.B.get("!" + d)
        if h is not None:
            x = h(self, st, c)
            if x is not None:
                return x
        # summaries of local functions installed by a check
        sm = self.opts.get("summaries", {})
        h = sm.get(d) or (sm.get(r[0]) if r is not None else None)
        if h is not None:
            x = h(self, st, c)
            if x is not None:
                return x
        if tr in FNTRAITS:
            return self.trait_call(st, d, ta, tr, args, c)
        if self.collapse:
            q = r[0] if r is not None and r[0] in F.bodies else d if tr is None and d in F.bodies else None
            if q is not None and self.effects.computes(F.bodies[q], self.collapse) and not self.watched(c):
                return self.opaque_result(st, F.bodies[q], c)
        if r is not None and r[0] in F.bodies:
            b = F.bodies[r[0]]
            if r[0] in self.opts.get("apart", ()):
                return self.apart_call(st, b, c)
            return self.inline(st, b, self.bind(b, r[1]), args, c)
        if tr is None and d in F.bodies:
            b = F.bodies[d]
            return self.inline(st, b, self.bind(b, ta), args, c)
        if tr is None and "::" in d:
            q = self.inherent(d)
            if q:
                b = F.bodies[q]
                return self.inline(st, b, self.bind(b, ta), args, c)
        if tr is not None:
            x = self.trait_call(st, d, ta, tr, args, c)
            if x is not None:
                return x
        h = self.B.get(d)
        if h is not None:
            x = h(self, st, c)
            if x is not None:
                return x
        m = F.bodies.get("models::" + mangle(d))
        if m is not None:
            return self.inline(st, m, self.bind(m, ta), args, c)
        h = self.B.get("~" + (d.rsplit("::", 1)[-1]))
        if h is not None:
            x = h(self, st, c)
            if x is not None:
                return x
        return self.unknown_call(st, d, args, c)

    def watched(self, c):
        """does the call take a value of a type the rule wants to follow"""
        see = self.opts.get("see")
        return bool(see) and any(self.type_has(t, see, 4) for t in c.argtys) and not any(
            t[0] == "adt" and t[1].endswith(self.opts.get("unsee", "-")) for t in c.argtys)

    def type_has(self, t, see, n):
        if t[0] == "adt":
            if t[1].endswith(see):
                return True
            a = self.F.adts.get(t[1])
            if a and n and t[1].split("::")[0] not in ("alloc", "core", "std"):
                for v in a["variants"]:
                    if any(self.type_has(f, see, n - 1) for _, f in v[2]):
                        return True
        return any(self.type_has(x, see, n) for x in t[2] or () if isinstance(x, tuple))

    def apart_call(self, st, b, c):
        """a function analysed on its own: any result, and what it was handed to change is changed in any way (buffers read from get shorter)"""
        self.apart_calls.add(b.path)
        for a, t in zip(c.args, c.argtys):
            if a.op != "ref" or t[0] != "ref" or not t[1]:
                continue
            pl = self.canon_place(st, a)
            old = self.load(st, pl)
            n = None
            if old.op == "buf":
                n = self.lenof(self, st, old)
            elif old.op == "sym":
                n = self.lenof(self, st, old)
            new = st.fresh("left")
            if n is not None:
                m = self.lenof(self, st, new)
                st.ineqs = st.ineqs | {lsub(n, m)}
            self.store(st, pl, new)
        return self.opaque_result(st, b, c)

    def opaque_result(self, st, b, c):
        """result of a function which only computes: any value of its type"""
        self.collapsed[b.path] = self.collapsed.get(b.path, 0) + 1
        self.emit(st, "pure_call", c, fn=b.path, args=tuple(self.rd(st, a) for a in c.args))
        t = c.destty
        if t[0] == "adt" and t[1] in (RES, OPT):
            z = st.copy()
            x = self.of_type(st, t[2][0], "pure:" + b.path)
            if t[1] == RES:
                return self.ret(st, ok(x)) + self.ret(z, err(z.fresh("pureerr:" + b.path)))
            return self.ret(st, some(x)) + self.ret(z, NONE)
        return self.ret(st, self.of_type(st, t, "pure:" + b.path))

    def of_type(self, st, t, site):
        if t[0] == "tuple":
            return tup(*[self.of_type(st, x, site) for x in t[2]])
        if t[0] == "prim" and t[1] in RNG:
            return st.fresh(site, t[1])
        return st.fresh(site)

    def inherent(self, d):
        return None

    def bind(self, b, ta):
        g = b.generics
        e = {}
        tt = [t for t in ta]
        if len(tt) != len(g):
            tt2 = [t for t in tt if t[0] != "unk"]
            if len(tt2) == len(g):
                tt = tt2
        for n, t in zip(g, tt):
            e[n] = t
        return mkenv(e)

    def inline(self, st, b, env, args, c):
        if b.ctor:
            return self.ret(st, adt(b.ctor, b.v, *args))
        # guard against unbounded recursion
        if sum(1 for f in st.stack if f[0] == "b" and f[1] is b) >= 4:
            return self.unknown_call(st, b.path, args, c)
        args = list(args)
        if len(args) < b.argc:
            # rust-call abi: last argument is a tuple
            if args and args[-1].op == "agg" and args[-1].a[0] == ("tuple",):
                args = args[:-1] + list(args[-1].a[2:])
        self.push(st, b, env, args)
        return [st]

    def trait_call(self, st, d, ta, tr, args, c):
        F = self.F
        if not ta:
            return None
        name = d.rsplit("::", 1)[-1]
        self_ty = ta[0]
        targs = ta[1:]
        # Fn* traits
        if tr in FNTRAITS:
            fv = args[0]
            ref = None
            n = 0
            while fv.op in ("ref", "box", "arc") and n < 6:
                ref = fv
                fv = self.load(st, self.deref(fv))
                n += 1
            rest = args[1:]
            if len(rest) == 1 and rest[0].op == "agg" and rest[0].a[0] == ("tuple",):
                rest = list(rest[0].a[2:])
            if fv.op == "agg" and fv.a[0][0] == "closure":
                return self.call_closure(st, fv, ref, rest, c)
            if fv.op == "fn":
                return self.call_fn(st, fv, list(rest), c)
            return self.unknown_call(st, "<dyn Fn>", list(args), c)
        n = len(F.impls)
        hit = None
        if self_ty[0] not in ("param", "dyn", "unk", "alias"):
            ntr = len(targs)
            hit = F.find_impl(tr, self_ty, self.trait_targs(tr, targs))
        if hit is None and args and tr not in ("core::clone::Clone",):
            # dispatch on the value
            v = self.rd(st, args[0])
            if is_adt(v):
                hit = self.value_impl(tr, v)
        if hit is not None:
            imp, env = hit
            q = imp["items"].get(name)
            if q and q in F.bodies:
                h = self.opts.get("summaries", {}).get(q)
                if h is not None:
                    return h(self, st, c)
                b = F.bodies[q]
                e = dict(env)
                extra = [g for g in b.generics if g not in e]
                mt = [t for t in ta[1 + len(self.trait_targs(tr, targs)):]]
                for g, t in zip(extra, mt[-len(extra):] if extra else []):
                    e[g] = t
                return self.inline(st, b, mkenv({g: e[g] for g in b.generics if g in e}), args, c)
            if d in F.bodies:
                b = F.bodies[d]
                e = {"Self": self_ty}
                return self.inline(st, b, self.bind_default(b, ta), args, c)
        if self_ty[0] in ("dyn", "param", "alias") and (tr.split("::")[0] in self.F.crates):
            return self.dyncall(st, d, tr, name, args, c)
        return None

    def dyncall(self, st, d, tr, name, args, c):
        """call of a method of a local trait implemented by the user of the crate"""
        self.emit(st, "dyncall", c, trait=tr.rsplit("::", 1)[-1], method=name, args=tuple(args))
        s = tshow(c.destty)
        if c.destty[0] == "alias" or "future::Future" in s:
            f = nat("dynfut", mk("m", tr.rsplit("::", 1)[-1] + "::" + name), *args)
            if c.destty[0] == "adt" and "Box" in s:
                return self.ret(st, mk("box", self.alloc(st, "dynfut", f)))
            return self.ret(st, f)
        if not args:
            return self.ret(st, mk("app", "dyn:" + name, mk("cst", tshow(c.a[0]) if c.a else "", "")))
        return self.ret(st, st.fresh("dyn:" + name))

    def map_find(self, st, v, key):
        import lib
        return lib.map_find(self, st, v, key)

    def spawn_task(self, st, fut):
        """the future runs as a task of its own: it becomes another root"""
        s = St()
        s.stack = ()
        s.mem = {r: v for r, v in st.mem.items() if r.op != "L"}
        s.mem[L(0, 0)] = fut
        s.facts = dict(st.facts)
        s.ineqs = st.ineqs
        s.mon = {}
        s.ctr = st.ctr
        s.trace = None
        s.cancelled = False
        s.imprecise = st.imprecise
        s.hist = {}
        for m in self.monitors:
            m.init(s)
            g = getattr(m, "spawned", None)
            if g:
                g(s, st)
        self.gc(s)
        key = self.canon(s)
        if key in self.spawn_seen:
            return
        self.spawn_seen.add(key)
        v = s.mem[L(0, 0)]
        while v.op in ("ref", "box"):
            v = self.load(s, self.deref(v))
        name = "task:" + (v.a[0][1] if v.op == "agg" else v.op)
        n = sum(1 for x in self.spawned if x[0] == name)
        if n < self.opts.get("max_spawn", 12):
            self.spawned.append((name, s))

    def run_spawned(self):
        """run spawned tasks, and the tasks they spawn"""
        i = 0
        skip = self.opts.get("skip_roles", ())
        while i < len(self.spawned):
            name, s = self.spawned[i]
            i += 1
            self.role = self.task_role(s)
            if self.role not in skip:
                self.run(name, s)
            self.role = "root"

    role = "root"
    argtypes = ()

    def task_role(self, st):
        """what a spawned task works with: only the writing half of a connection, the reading half, a whole stream"""
        seen = set()
        todo = [st.mem[L(0, 0)]] if L(0, 0) in st.mem else list(st.mem.values())
        r = w = s = False
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("arc", "box", "ref"):
                try:
                    todo.append(self.load(st, self.deref(x)))
                except Exception:
                    pass
            if is_nat(x, "framed"):
                if x.a[2] is mk("m", "w"):
                    w = True
                elif x.a[2] is mk("m", "r"):
                    r = True
                else:
                    s = True
            elif is_nat(x, "stream"):
                s = True
            todo.extend(kids(x))
        if s or r and w:
            return "connection"
        return "writer" if w else "reader" if r else "other"

    def bind_default(self, b, ta):
        return self.bind(b, ta)

    def trait_targs(self, tr, targs):
        ims = self.F.bytrait.get(tr)
        if not ims:
            return ()
        k = len(ims[0]["targs"]) - 1
        return tuple(targs[:k]) if k > 0 else ()

    def value_impl(self, tr, v):
        for i in self.F.bytrait.get(tr, ()):
            if i["self"][0] == "adt" and i["self"][1] == v.a[0][1]:
                return (i, {})
        return None

    def unknown_call(self, st, d, args, c):
        self.unknown[d] = self.unknown.get(d, 0) + 1
        if c.target is None and c.body is not None and st.stack and st.stack[-1][0] == "b" and st.stack[-1][4] and st.stack[-1][4][1] is None:
            self.emit(st, "panic", c, what=d)
            return []
        # a closure handed to code we do not know: its effects are unknown
        for a in args:
            if self.has_closure(st, a):
                st.imprecise = True
                self.emit(st, "opaque", c, fn=d)
                break
        muts = []
        for i, a in enumerate(args):
            t = c.argtys[i] if i < len(c.argtys) else None
            if a.op == "ref" and t is not None and t[0] == "ref" and t[1] == "mut":
                self.store(st, (a.a[0], a.a[1]), st.fresh("hav:" + d))
        if not args and not d.startswith("<"):
            return self.ret(st, mk("app", d))
        vals = [self.rd(st, a) for a in args]
        if all(self.pure(v) for v in vals) and not muts and c.destty[0] != "unk":
            return self.ret(st, mk("app", "ty:%s:%s" % (c.destty[1], d) if c.destty[0] == "prim" else d, *vals))
        return self.ret(st, st.fresh("ret:" + d))

    def has_closure(self, st, v):
        if v.op == "ref":
            v = self.load(st, self.deref(v))
        return v.op == "agg" and v.a[0][0] == "closure" or v.op == "fn"

    def pure(self, v):
        return v.op in ("int", "str", "sym", "fld", "der", "app", "lin", "cst", "anymsg")

    # ------------------------------------------------------------ polling futures
    def poll(self, st, v, c, pl=None):
        """poll future value v (stored at place pl); delivers Poll<T> to the top frame"""
        n = 0
        while v.op in ("ref", "box") and n < 8:
            pl = self.deref(v)
            v = self.load(st, pl)
            n += 1
        if v.op == "agg" and v.a[0][0] == "cor":
            b = self.F.bodies.get(v.a[0][1])
            if b is not None:
                if pl is not None:
                    self.store(st, pl, DONE)
                self.push_native(st, "poll")
                self.push(st, b, v.a[0][2], [v, UNIT])
                return [st]
        if is_nat(v):
            k = v.a[0][1]
            h = self.B.get("poll:" + k)
            if h is not None:
                if pl is not None and k not in ("ready",):
                    pass
                return h(self, st, c, v, pl)
        if is_adt(v):
            hit = self.value_impl("core::future::future::Future", v)
            if hit:
                q = hit[0]["items"].get("poll")
                if q in self.F.bodies:
                    return self.inline(st, self.F.bodies[q], EMPTY_ENV, [mk("ref", pl[0], pl[1]) if pl else v, UNIT], c)
        self.unknown["<poll %s>" % show(v)[:60]] = 1
        self.emit(st, "opaque", c, fn="await " + show(v)[:80])
        out = []
        if self.cancel and not st.cancelled:
            s2 = st.copy()
            s2.cancelled = True
            out += self.ret(s2, PENDING)
        return self.ret(st, ready(st.fresh("await"))) + out

    def leaf(self, st, results, c, name=None):
        """deliver results [(st, value)] of a leaf await, exploring cancellation"""
        out = []
        if self.cancel and not st.cancelled:
            s2 = st.copy()
            s2.cancelled = True
            out += self.ret(s2, PENDING)
        for s, v in results:
            out += self.ret(s, ready(v))
        return out

    # ------------------------------------------------------------ drops
    def drop(self, st, pl, v, t):
        """drop the value at pl, then continue the top frame (its pend target)"""
        work = []
        self.collect_drop(st, pl, v, t, work, 0)
        return self.run_drops(st, tuple(work))

    def run_drops(self, st, work):
        while work:
            w, work = work[0], work[1:]
            if w[0] == "fn":
                b = self.F.bodies[w[1]]
                self.push_native(st, "drops", work)
                self.push(st, b, w[3], [self.mkref(w[2])])
                return [st]
            if w[0] == "val":
                # drop content after the Drop impl ran: re-read the place
                v = self.load(st, w[1])
                nw = []
                self.collect_fields(st, w[1], v, nw, w[2])
                work = tuple(nw) + work
                continue
            if w[0] == "ev":
                self.emit(st, w[1], None, **dict(w[2]))
                if w[1] == "unlock":
                    self.forget(st, dict(w[2])["lock"])
        return self.ret(st, UNIT)

    def collect_drop(self, st, pl, v, t, work, depth):
        if depth > 12:
            return
        o = v.op
        if o in ("int", "str", "ref", "done", "uninit", "fn", "lin", "cst", "arc", "seqx"):
            if o == "arc":
                work.append(("ev", "drop_arc", (("v", v),)))
            return
        if o == "box":
            p = (v.a[0], ())
            self.collect_drop(st, p, self.load(st, p), t[2][0] if t and t[0] == "adt" and t[2] else None, work, depth + 1)
            return
        if o == "agg":
            k = v.a[0]
            if k[0] == "adt":
                h = self.F.dropimpl.get(k[1])
                if h and h[0] in self.F.bodies:
                    work.append(("fn", h[0], pl, EMPTY_ENV))
                    work.append(("val", pl, depth))
                    return
            if k[0] == "nat":
                if k[1] == "guard":
                    work.append(("ev", "unlock", (("lock", v.a[2]), ("mode", v.a[3]))))
                elif k[1] in ("sender", "receiver", "permit", "framed", "listener", "stream"):
                    work.append(("ev", "drop_" + k[1], (("v", v),)))
                    if k[1] == "framed":
                        pass
                elif k[1] == "lock":
                    self.collect_drop(st, (pl[0], pl[1] + (("inner",),)), v.a[2], None, work, depth + 1)
                return
            self.collect_fields(st, pl, v, work, depth)
            return
        if o == "seq":
            for i, s in enumerate(v.a):
                if isinstance(s[1], N) and s[1].op == "agg":
                    self.collect_drop(st, (mk("val", s[1]), ()), s[1], None, work, depth + 1)
            return
        if o in ("sym", "fld", "der", "app", "with") and t is not None and t[0] == "adt":
            h = self.F.dropimpl.get(t[1])
            if h and h[0] in self.F.bodies:
                work.append(("fn", h[0], pl, EMPTY_ENV))
            elif t[1].endswith("MutexGuard") or "RwLockReadGuard" in t[1] or "RwLockWriteGuard" in t[1]:
                work.append(("ev", "opaque", (("fn", "drop guard"),)))
        return

    def collect_fields(self, st, pl, v, work, depth):
        if v.op != "agg":
            return
        k = v.a[0]
        fs = v.a[2:]
        for i, x in enumerate(fs):
            if x.op in ("agg", "box", "arc", "seq"):
                if k[0] == "adt" and self.variants_of(k[1]) and len(self.variants_of(k[1])) > 1:
                    p = (pl[0], pl[1] + (("v", v.a[1]), ("f", i)))
                elif k[0] == "array":
                    p = (pl[0], pl[1] + (("c", i, False),))
                else:
                    p = (pl[0], pl[1] + (("f", i),))
                self.collect_drop(st, p, x, None, work, depth + 1)


_fmcache = {}


def _fm(ineqs, extra):
    """are the facts and extra possibly true together (small sets of facts first: any refuted part refutes the whole)"""
    own = set(lparts(extra)[1])
    by = {}
    for f in ineqs:
        c, d = lparts(f)
        k = frozenset(dict(d).items())
        if k not in by or c < by[k]:
            by[k] = c
    facts = [(c, dict(k)) for k, c in by.items()]
    near = [f for f in facts if all(t in own for t in f[1])]
    if near and not _refute(near, extra):
        return False
    n = len(near)
    a2 = own | {t for c, d in facts if len(d) <= 2 and any(t in own for t in d) for t in d}
    near = [f for f in facts if len(f[1]) <= 2 and all(t in a2 for t in f[1])]
    if len(near) > n and not _refute(near, extra):
        return False
    # the facts connected to extra
    sel, rest, atoms = [], facts, set(own)
    for _ in range(3):
        add = [f for f in rest if any(t in atoms for t in f[1])]
        if not add:
            break
        rest = [f for f in rest if f not in add]
        sel += sorted(add, key=lambda f: len(f[1]))[:40]
        for f in add:
            atoms |= set(f[1])
        if len(sel) > 24:
            break
    return len(sel) == len(near) or _refute(sel, extra)


def _refute(facts, extra):
    """Fourier-Motzkin elimination; True when the facts were not found contradictory"""
    cons = {}

    def put(m, c, d):
        k = frozenset(d.items())
        if k not in m or c < m[k]:
            m[k] = c
    for c, d in facts:
        put(cons, c, d)
    c, d = lparts(extra)
    put(cons, c, dict(d))
    atoms = {t for k in cons for t, _ in k}
    for t in atoms:
        lo, hi = trange(t)
        if lo > -2**100:
            put(cons, -lo, {t: 1})
        if hi < 2**40:
            put(cons, hi, {t: -1})
    vars_ = sorted(atoms, key=show)
    while True:
        if any(not k and c < 0 for k, c in cons.items()):
            return False
        cons = {k: c for k, c in cons.items() if k}
        if not vars_ or not cons:
            return True
        # variable with fewest combinations
        P, Q = {}, {}
        for k in cons:
            for t, x in k:
                m = P if x > 0 else Q
                m[t] = m.get(t, 0) + 1
        v = min(vars_, key=lambda t: P.get(t, 0) * Q.get(t, 0))
        if P.get(v, 0) * Q.get(v, 0) > 400:
            return True
        vars_.remove(v)
        pos, neg, new = [], [], {}
        for k, c in cons.items():
            d = dict(k)
            x = d.get(v, 0)
            if x > 0:
                pos.append((c, d))
            elif x < 0:
                neg.append((c, d))
            else:
                put(new, c, d)
        for c1, d1 in pos:
            for c2, d2 in neg:
                k1, k2 = -d2[v], d1[v]
                d = {t: k * k1 for t, k in d1.items()}
                for t, k in d2.items():
                    d[t] = d.get(t, 0) + k * k2
                d = {t: k for t, k in d.items() if k}
                c = c1 * k1 + c2 * k2
                if not d:
                    if c < 0:
                        return False
                    continue
                put(new, c, d)
        cons = new
        if len(cons) > 600:
            return True


class Gen:
    """generalises the current state b against an earlier state a of the same path: equal up to a renaming of symbols
    stays, a number, buffer or sequence which differs becomes a fresh symbol or a repetition"""

    def __init__(self, E, st, join=False):
        self.E, self.st = E, st
        self.join = join
        self.fw = {}
        self.bw = {}
        self.map = {}
        self.changed = False

    def state(self, om):
        sm = self.st.mem
        nm = {}
        la = [r for r in om if r.op == "L"]
        if {r for r in la} != {r for r in sm if r.op == "L"}:
            return None
        for r in sorted(la, key=lambda r: (r.a[0], r.a[1])):
            x = self.gen(om[r], sm[r])
            if x is None:
                return None
            nm[r] = x
        # cells: matched through the renaming found so far
        todo = True
        done = set()
        while todo:
            todo = False
            for r in om:
                if r.op == "L" or r in done:
                    continue
                q = self.back(r)
                if q in sm and q not in nm:
                    x = self.gen(om[r], sm[q])
                    if x is None:
                        return None
                    nm[q] = x
                    done.add(r)
                    todo = True
        for r in sm:
            if r not in nm:
                if r.op == "L":
                    return None
                nm[r] = sm[r]
        return nm

    def back(self, t):
        """term of the earlier state in the symbols of the current one"""
        memo = {}
        f = self.fw.get

        def rn(n):
            if n.op == "sym":
                return f(n, n)
            if not syms_of(n):
                return n
            return None
        return tmap(t, rn, memo)

    def alpha(self, a, b):
        """equal up to renaming (extends the renaming when so)"""
        fw, bw = dict(self.fw), dict(self.bw)
        if self._alpha(a, b):
            return True
        self.fw, self.bw = fw, bw
        return False

    def _alpha(self, a, b):
        if a.op == "sym" and b.op == "sym":
            if isinstance(a.a[0], str) and a.a[0].startswith("arg") or isinstance(b.a[0], str) and b.a[0].startswith("arg"):
                return a is b
            x = self.fw.get(a)
            if x is not None:
                return x is b
            if b in self.bw or a.a[0] != b.a[0] or a.a[2:] != b.a[2:]:
                return False
            self.fw[a] = b
            self.bw[b] = a
            return True
        if a is b and not syms_of(a):
            return True
        if a.op != b.op:
            return False
        if a.op == "lin":
            if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
                return False
            A = sorted(a.a[1], key=lambda t: show(t[0]))
            B = sorted(b.a[1], key=lambda t: show(t[0]))
            return all(x[1] == y[1] and self._alpha(x[0], y[0]) for x, y in zip(A, B))
        return self._alphat(a.a, b.a)

    def _alphat(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, N):
                if not isinstance(y, N) or not self._alpha(x, y):
                    return False
            elif isinstance(x, tuple):
                if not isinstance(y, tuple) or not self._alphat(x, y):
                    return False
            elif x != y:
                return False
        return True

    def newineqs(self, st):
        """linear facts about the fresh numbers which hold of the current state"""
        out = []
        vs = [(k, x) for k, x in self.map.items() if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], N)]
        num = []
        for (a, b), x in vs:
            if not (self.isnum(a) and self.isnum(b)):
                continue
            num.append((self.back(a), b, x))
            if trange(x)[0] < 0 and self.E.prove(st, b):
                out.append(x)
        for i in range(len(num)):
            for j in range(i):
                ai, bi, xi = num[i]
                aj, bj, xj = num[j]
                for k in (1, -1):
                    p, q = ladd(ai, aj, k), ladd(bi, bj, k)
                    if p is q:
                        d = lsub(ladd(xi, xj, k), q)
                        out += [d, lscale(d, -1)]
        return out

    def isnum(self, t):
        return self.E.numeric(t)

    def common(self, st, oi, both):
        """linear facts of either state (rewritten to the fresh numbers) which hold of both"""
        old = frozenset(self.back(l) for l in oi)
        num = [(self.back(k[0]), k[1], x) for k, x in self.map.items()
               if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], N) and self.isnum(k[0]) and self.isnum(k[1])]
        cand = {l for l in old} | ({l for l in st.ineqs} if both else set())

        def solve(l, i):
            # l with one atom of the i-th term of each number expressed by the number
            for t in num:
                c, d = lparts(t[i])
                for at, k in d.items() if isinstance(d, dict) else d:
                    if k in (1, -1) and any(at is y for y in dict(lparts(l)[1])):
                        kl = dict(lparts(l)[1])[at]
                        # at = k * (x - (t - k*at))
                        rest = lsub(t[i], lscale(at, k))
                        e = lscale(lsub(t[2], rest), k)
                        yield ladd(lsub(l, lscale(at, kl)), e, kl)
        for n in range(2):
            more = set()
            for l in cand:
                for i in ((0, 1) if both else (0,)):
                    more.update(solve(l, i))
            if len(cand) + len(more) > 400:
                break
            cand |= more
        out = set()
        for l in cand:
            if l.op == "int":
                continue
            a, b = l, l
            for p, q, x in num:
                k = dict(lparts(l)[1]).get(x)
                if k:
                    a = ladd(lsub(a, lscale(x, k)), p, k)
                    b = ladd(lsub(b, lscale(x, k)), q, k)
            if self.holds(old, a) and self.holds(st.ineqs, b):
                out.add(l)
        return frozenset(out)

    def holds(self, ineqs, l):
        lo, hi = trange(l)
        if lo >= 0:
            return True
        return hi >= 0 and bool(ineqs) and not self.E.consistent(ineqs, ladd(lscale(l, -1), I(-1)))

    def var(self, a, b):
        k = (a, b)
        x = self.map.get(k)
        self.changed = True
        if x is None:
            rng = None
            if self.isnum(a) and self.isnum(b):
                ra, rb = trange(a), trange(b)
                for nm in ("bool", "u8", "u16", "u32", "usize", "i32", "i64"):
                    lo, hi = RNG[nm]
                    if lo <= min(ra[0], rb[0]) and max(ra[1], rb[1]) <= hi:
                        rng = nm
                        break
                else:
                    rng = "num"
            x = self.st.fresh("wid", rng) if rng else self.st.fresh("wid")
            self.map[k] = x
        return x

    SC = ("int", "lin", "sym", "app", "fld", "str", "buf", "der")

    def gen(self, a, b):
        if self.alpha(a, b):
            return b
        la = a.op in self.SC or a.op == "agg" and a.a[0][0] == "adt" and self.E.lumped(a.a[0][1])
        lb = b.op in self.SC or b.op == "agg" and b.a[0][0] == "adt" and self.E.lumped(b.a[0][1])
        if la and lb and (a.op == "agg" or b.op == "agg"):
            if a.op == b.op and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a) == 3 and len(b.a) == 3:
                x = self.gen(a.a[2], b.a[2])
                if x is not None:
                    return mk("agg", a.a[0], a.a[1], x)
            return self.var(a, b)
        if a.op == "agg" and b.op == "agg":
            if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a) != len(b.a):
                return None
            fs = []
            for x, y in zip(a.a[2:], b.a[2:]):
                z = self.gen(x, y)
                if z is None:
                    return None
                fs.append(z)
            return mk("agg", a.a[0], a.a[1], *fs)
        if a.op == "seq" and b.op == "seq":
            return self.genseq(a, b)
        if a.op == "buf" and b.op == "buf" and self.alpha(a.a[0], b.a[0]):
            x, y = self.gen(a.a[1], b.a[1]), self.gen(a.a[2], b.a[2])
            if x is not None and y is not None:
                return mk("buf", b.a[0], x, y)
        if b.op == "buf" and a is b.a[0]:
            o, n = self.gen(I(0), b.a[1]), self.gen(mk("app", "len", a), b.a[2])
            if o is not None and n is not None:
                return mk("buf", b.a[0], o, n)
        if a.op == "seq" and b.op in self.SC or b.op == "seq" and a.op in self.SC:
            return self.var(a, b) if self.join else None
        if a.op in self.SC and b.op in self.SC:
            if b.op == "int" and a.op == "int" and trange(a)[1] <= 1 and trange(b)[1] <= 1:
                return None
            if self.join and (b.op == "int" and b.a[0] in (0, 1) or a.op == "int" and a.a[0] in (0, 1)) and not (self.isnum(a) and self.isnum(b)):
                return None
            return self.var(a, b)
        if a.op == "map" and b.op == "map" and self.alpha(a.a[0], b.a[0]):
            if len(b.a) > 4:
                self.changed = True
                return self.st.fresh("wmap")
            return b if len(a.a) != len(b.a) else None
        if a.op == "with" and b.op == "with" and a.a[1] == b.a[1]:
            x = self.gen(a.a[0], b.a[0])
            y = self.gen(a.a[2], b.a[2])
            if x is None or y is None:
                return None
            return mk("with", x, a.a[1], y)
        if a.op == "ref" and b.op == "ref" and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]):
            return None
        return None

    def lgg(self, x, y):
        """least general generalisation of two terms of the current state"""
        if x is y:
            return x
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a) == len(y.a):
            return mk("agg", x.a[0], x.a[1], *[self.lgg(p, q) for p, q in zip(x.a[2:], y.a[2:])])
        if x.op == "seq" and y.op == "seq":
            if len(x.a) == len(y.a) and all(p[0] == q[0] for p, q in zip(x.a, y.a)):
                return mk("seq", *[(p[0], self.lgg(p[1], q[1])) for p, q in zip(x.a, y.a)])
            xs = [g[1] for g in x.a + y.a]
            if not any(g[0] == "any" for g in x.a + y.a):
                z = xs[0]
                for w in xs[1:]:
                    z = self.lgg(z, w)
                return mk("seq", ("star", z))
        if x.op == "app" and y.op == "app" and x.a[0] == y.a[0] and len(x.a) == len(y.a) and x.a[0].startswith(("be:", "le:", "encoded")):
            return mk("app", x.a[0], *[self.lgg(p, q) if isinstance(p, N) else p for p, q in zip(x.a[1:], y.a[1:])])
        return self.var(x, y)

    def segalpha(self, p, q):
        return p[0] == q[0] and self.alpha(p[1], q[1])

    def genseq(self, a, b):
        A, B = a.a, b.a
        n = 0
        while n < min(len(A), len(B)) and self.segalpha(A[n], B[n]):
            n += 1
        m = 0
        while m < min(len(A), len(B)) - n and self.segalpha(A[-1 - m], B[-1 - m]):
            m += 1
        if self.join:
            ma, mb = [self.back_seg(x) for x in A[n:len(A) - m]], list(B[n:len(B) - m])
            mid = ma + mb
            if not mid:
                return b
            pre, post = list(B[:n]), list(B[len(B) - m:] if m else ())
            self.changed = True
            while ma and mb and ma[0][0] == mb[0][0] == "e" and len(pre) < 3:
                # both have an element here
                pre.append(("e", self.lgg(ma.pop(0)[1], mb.pop(0)[1])))
            mid = ma + mb
            if not mid:
                return mk("seq", *(pre + post))
            if any(x[0] == "any" for x in mid):
                return mk("seq", *(pre + [("any", self.st.fresh("wseq"))] + post))
            mids = [x[1] for x in mid]
            while pre and pre[-1][0] == "star":
                mids.append(pre.pop()[1])
            while post and post[0][0] == "star":
                mids.append(post.pop(0)[1])
            x = mids[0]
            for y in mids[1:]:
                x = self.lgg(x, y)
            return mk("seq", *(pre + [("star", x)] + post))
        if len(B) < len(A):
            # it shrinks: that ends by itself
            return b
        if len(A) == len(B) and n + m + 1 == len(A) and A[n][0] == B[n][0] == "e":
            x = self.gen(A[n][1], B[n][1])
            if x is not None:
                return mk("seq", *(B[:n] + (("e", x),) + B[n + 1:]))
        mid = B[n:len(B) - m]
        mids = [s[1] for s in mid]
        if not mids:
            return b
        pre, post = list(B[:n]), list(B[len(B) - m:] if m else ())
        if any(s[0] == "any" for s in mid):
            self.changed = True
            return mk("seq", *(pre + [("any", self.st.fresh("wseq"))] + post))
        while pre and pre[-1][0] == "star":
            mids.append(pre.pop()[1])
        while post and post[0][0] == "star":
            mids.append(post.pop(0)[1])
        x = mids[0]
        for y in mids[1:]:
            x = self.lgg(x, y)
        if len(mids) == 1:
            x = self.renew(x)
        self.changed = True
        return mk("seq", *(pre + [("star", x)] + post))

    def back_seg(self, s):
        x = self.back(s[1])
        # symbols of the other state which have no counterpart are any value
        g = {y for y in syms_of(s[1]) if y not in self.fw and not str(y.a[0]).startswith("arg")}
        if g:
            x = self.st.fresh("wid")
        return (s[0], x)

    def renew(self, x):
        return x


def mangle(d):
    return d.replace("<", "").replace(">", "").replace(" ", "_").replace("::", "__").replace("[T]", "slice")
