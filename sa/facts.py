"""Loads the facts the MIR driver wrote and answers type / trait questions."""
import json
import re


def T(k, d=None, a=(), x=None):
    return (k, d, a, x)


class Body:
    __slots__ = ("path", "generics", "argc", "cor", "spread", "locals", "bbs", "names", "span", "at", "promoted",
                 "ctor", "v", "exp", "_live", "_join", "_heads", "crate", "pub", "kind", "parent")


class Facts:
    def __init__(self, files):
        self.bodies = {}
        self.impls = []
        self.adts = {}
        self.consts = {}
        self.crates = []
        for f in files:
            self._load(json.load(open(f)))
        self.bytrait = {}
        for i in self.impls:
            self.bytrait.setdefault(i["trait"], []).append(i)
        self.dropimpl = {}
        for i in self.bytrait.get("core::ops::drop::Drop", []):
            s = i["self"]
            if s[0] == "adt":
                self.dropimpl[s[1]] = (i["items"].get("drop"), i)
        self._rescache = {}

    def _load(self, d):
        crate = d["crate"]
        self.crates.append(crate)
        raw = d["types"]
        tys = [None] * len(raw)

        def ty(i):
            if i is None or i < 0:
                return T("unk")
            if tys[i] is not None:
                return tys[i]
            e = raw[i]
            tys[i] = T("unk")
            k = e["k"]
            a = tuple(ty(x) for x in e.get("a", ()))
            if k == "prim":
                r = T("prim", e["s"])
            elif k == "ref":
                r = T("ref", "mut" if e.get("m") else "", a)
            elif k == "param":
                r = T("param", e["d"])
            elif k == "dyn":
                r = T("dyn", e["d"])
            elif k == "alias":
                r = T("alias", e["s"], a)
            elif k == "array":
                r = T("array", str(e.get("n")), a)
            elif k == "fnptr":
                r = T("fnptr", e["s"])
            elif k in ("tuple", "slice", "ptr", "never"):
                r = T(k, None, a)
            else:
                r = T(k, e["d"], a)
            tys[i] = r
            return r
        for i in range(len(raw)):
            ty(i)

        def cvt_fn(f):
            return {"d": f["d"], "a": tuple(ty(x) for x in f["a"]), "k": f["k"], "t": f["t"],
                    "r": None if not f["r"] else (f["r"]["d"], tuple(ty(x) for x in f["r"]["a"]))}

        def op(o):
            if o[0] == "fn":
                return ("fn", cvt_fn(o[1]))
            if o[0] == "const":
                return ("const", o[1] if not (isinstance(o[1], dict) and "fn" in o[1]) else {"fn": cvt_fn(o[1]["fn"])}, ty(o[2]), o[3])
            if o[0] == "promoted":
                return ("promoted", o[1], o[2], ty(o[3]))
            return (o[0], place(o[1]))

        def place(p):
            pr = []
            for e in p[1]:
                if e[0] == "f":
                    pr.append(("f", e[1]))
                elif e[0] == "v":
                    pr.append(("v", e[1]))
                else:
                    pr.append(tuple(e))
            return (p[0], tuple(pr))

        def rv(r):
            k = r[0]
            if k == "use":
                return ("use", op(r[1]))
            if k == "ref":
                return ("ref", place(r[1]), r[2])
            if k == "cast":
                return ("cast", r[1], op(r[2]), ty(r[3]), ty(r[4]))
            if k == "bin":
                return ("bin", r[1], op(r[2]), op(r[3]), ty(r[4]) if len(r) > 4 else T("unk"))
            if k == "un":
                return ("un", r[1], op(r[2]))
            if k == "discr":
                return ("discr", place(r[1]), ty(r[2]))
            if k == "repeat":
                return ("repeat", op(r[1]), r[2] if len(r) > 2 else None)
            if k == "agg":
                x = dict(r[1])
                x["a"] = tuple(ty(i) for i in x.get("a", ()) or ())
                return ("agg", x, tuple(op(o) for o in r[2]))
            return ("other", str(r))

        def stmt(s):
            if s[0] == "=":
                return ("=", place(s[1]), rv(s[2]), s[3])
            if s[0] == "setd":
                return ("setd", place(s[1]), s[2])
            return tuple(s)

        def term(t):
            k = t[0]
            if k == "call":
                return ("call", op(t[1]), tuple(op(x) for x in t[2]), place(t[3]), t[4] if t[4] is not None and t[4] >= 0 else None,
                        tuple(ty(x) for x in t[5]), ty(t[6]))
            if k == "switch":
                return ("switch", op(t[1]), tuple((int(v), b) for v, b in t[2]), t[3], ty(t[4]))
            if k == "drop":
                return ("drop", place(t[1]), t[2], ty(t[3]))
            if k == "assert":
                return ("assert", op(t[1]), t[2], t[3], t[4], tuple(op(x) for x in t[5]))
            if k == "yield":
                return ("yield", t[1], place(t[2]), t[3] if t[3] is not None and t[3] >= 0 else None)
            return tuple(t)

        def body(b, promoted=False):
            B = Body()
            B.path = b["path"]
            B.crate = crate
            B.ctor = b.get("ctor")
            B.v = b.get("v")
            B.generics = b.get("generics", [])
            B.kind = b.get("kind")
            B.pub = b.get("pub")
            B.at = b.get("at") or b.get("span")
            B.exp = b.get("exp")
            B.span = b.get("span")
            B._live = B._join = B._heads = None
            B.promoted = []
            if B.ctor:
                B.argc = 0
                B.bbs = []
                return B
            B.argc = b["argc"]
            B.cor = b["coroutine"]
            B.spread = b["spread"]
            B.locals = [ty(i) for i in b["locals"]]
            B.names = b["names"]
            B.bbs = [(tuple(stmt(s) for s in st), term(t), ln, cl) for st, t, ln, cl in b["bbs"]]
            B.promoted = [body(p, True) for p in b.get("promoted", [])]
            return B
        for b in d["bodies"]:
            B = body(b)
            self.bodies[B.path] = B
        for i in d["impls"]:
            self.impls.append({"trait": i["trait"], "self": ty(i["self"]), "targs": tuple(ty(x) for x in i["targs"]),
                               "generics": i["generics"], "items": i["items"],
                               "types": {k: ty(v) for k, v in i["types"].items()}, "at": i["at"], "crate": crate})
        for a in d["adts"]:
            a = dict(a)
            a["variants"] = [(v["n"], int(v["d"]), [(n, ty(t)) for n, t in v["f"]]) for v in a["variants"]]
            if a["d"] not in self.adts or a.get("local"):
                self.adts[a["d"]] = a
        for c in d["consts"]:
            self.consts[c[0]] = c[1]

    # ---- types
    def subst(self, t, env):
        if not env:
            return t
        k, d, a, x = t
        if k == "param":
            return env.get(d, t)
        if a:
            a = tuple(self.subst(y, env) for y in a)
            if k == "alias":
                return self.norm(T(k, d, a, x))
            return T(k, d, a, x)
        return t

    def norm(self, t):
        """<T as Trait>::Assoc for local impls"""
        m = re.match(r"^<.* as (.*)>::(\w+)$", t[1] or "")
        if m and t[2]:
            tr = m.group(2)
            for i in self.impls:
                if tr in i["types"]:
                    e = {}
                    if self.unify(i["self"], t[2][0], e):
                        return self.subst(i["types"][tr], e)
        return t

    def unify(self, pat, t, env):
        if pat[0] == "param":
            if pat[1] in env:
                return env[pat[1]] == t or env[pat[1]][0] == "unk" or t[0] == "unk"
            env[pat[1]] = t
            return True
        if pat[0] == "unk" or t[0] == "unk":
            return True
        if pat[0] == "alias" or t[0] == "alias":
            return True
        if t[0] == "param":
            return False
        if pat[0] != t[0] or len(pat[2]) != len(t[2]):
            return False
        if pat[0] in ("ref",):
            pass
        elif pat[1] != t[1]:
            return False
        return all(self.unify(p, q, env) for p, q in zip(pat[2], t[2]))

    def find_impl(self, trait, self_ty, targs=()):
        key = (trait, self_ty, targs)
        r = self._rescache.get(key, 0)
        if r != 0:
            return r
        res = None
        cands = []
        for i in self.bytrait.get(trait, ()):
            e = {}
            if i["self"][0] == "param":
                pass
            if not self.unify(i["self"], self_ty, e):
                continue
            ita = i["targs"][1:] if i["targs"] and i["targs"][0] == i["self"] else i["targs"]
            if targs and len(ita) == len(targs):
                if not all(self.unify(p, q, e) for p, q in zip(ita, targs)):
                    continue
            cands.append((i, e))
        if cands:
            cands.sort(key=lambda c: c[0]["self"][0] == "param")
            res = cands[0]
        self._rescache[key] = res
        return res


def tshow(t):
    k, d, a, x = t
    s = d if isinstance(d, str) and k != "ref" else k
    return s + ("<" + ",".join(tshow(y) for y in a) + ">" if a else "")
