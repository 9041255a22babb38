"""Which functions only compute: no lock, channel, task, I/O, user code or future is reachable from them."""

EFFECT = ("tokio::", "bb8::", "std::sync::", "core::sync::atomic", "futures_util::sink", "futures_channel", "core::future",
          "futures_util::future", "std::io", "std::net", "futures_util::lock", "std::thread", "tokio_util::codec::framed")


def calls_of(F, b):
    """(callees, creates a coroutine)"""
    out = set()
    cor = False

    def fn(f):
        out.add((f["d"], f["r"][0] if f["r"] else None, f["t"], f["a"][0] if f["a"] else None))

    def op(o):
        if o[0] == "fn":
            fn(o[1])
        elif o[0] == "const" and isinstance(o[1], dict) and "fn" in o[1]:
            fn(o[1]["fn"])
        elif o[0] == "const" and o[2][0] == "fndef":
            out.add((o[2][1], None, None, None))
    for s, t, ln, cl in b.bbs:
        for x in s:
            if x[0] != "=":
                continue
            r = x[2]
            if r[0] in ("use", "repeat"):
                op(r[1])
            elif r[0] == "agg":
                if r[1]["k"] == "closure":
                    out.add((r[1]["d"], None, None, None))
                elif r[1]["k"] == "coroutine":
                    cor = True
                for o in r[2]:
                    op(o)
            elif r[0] == "cast":
                op(r[2])
        if t[0] == "call":
            op(t[1])
            for o in t[2]:
                op(o)
        elif t[0] == "drop" and t[3][0] == "adt":
            h = F.dropimpl.get(t[3][1])
            if h:
                out.add((h[0], None, None, None))
    return out, cor


class Effects:
    def __init__(self, F):
        self.F = F
        self.direct = {}
        self.memo = {}

    def info(self, b):
        r = self.direct.get(b.path)
        if r is None:
            r = self.direct[b.path] = calls_of(self.F, b) if b.bbs else (set(), False)
        return r

    def reach(self, path):
        """(pure, number of blocks of the crate reachable)"""
        r = self.memo.get(path)
        if r is not None:
            return r
        F = self.F
        seen, todo, size, pure = set(), [path], 0, True
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            b = F.bodies[p]
            if not b.bbs:
                continue
            if b.cor:
                pure = False
            size += len(b.bbs)
            cs, cor = self.info(b)
            if cor:
                pure = False
            for d, r, t, s in cs:
                if d.startswith(EFFECT) or r and r.startswith(EFFECT):
                    pure = False
                    continue
                if r in F.bodies:
                    todo.append(r)
                elif d in F.bodies and t is None:
                    todo.append(d)
                elif t is not None:
                    nm = d.rsplit("::", 1)[-1]
                    local = t.split("::")[0] in F.crates
                    if local and s is not None and s[0] == "dyn":
                        pure = False
                    if d in F.bodies:
                        todo.append(d)
                    for i in F.bytrait.get(t, ()):
                        if i["crate"] == "models":
                            continue
                        e = {}
                        if s is None or F.unify(i["self"], s, e) or s[0] in ("param", "alias"):
                            q = i["items"].get(nm)
                            if q in F.bodies:
                                todo.append(q)
        self.memo[path] = (pure, size)
        return pure, size

    def computes(self, b, minsize):
        """only computes from its arguments, which it cannot change"""
        if b.cor or b.ctor or b.crate == "models":
            return False
        for t in b.locals[1:b.argc + 1]:
            if has_mut(t):
                return False
        rt = b.locals[0]
        if rt[0] == "param" or rt == ("tuple", None, (), None) or rt[0] in ("ref", "never", "closure"):
            return False
        p, n = self.reach(b.path)
        return p and n >= minsize


def has_mut(t):
    if t[0] == "ref" and t[1] == "mut" or t[0] in ("ptr", "closure", "fnptr", "dyn"):
        return True
    return any(has_mut(x) for x in t[2] or () if isinstance(x, tuple))


def calls_any(F, path, names):
    """does a function of the crate, or one it calls, call a function of one of these names?"""
    seen, todo = set(), [path]
    while todo:
        p = todo.pop()
        if p in seen or p not in F.bodies:
            continue
        seen.add(p)
        for d, r, _, _ in calls_of(F, F.bodies[p])[0] if F.bodies[p].bbs else ():
            for q in (d, r):
                if q:
                    if q not in F.bodies and q.rsplit("::", 1)[-1] in names:
                        return True
                    todo.append(q)
    return False
