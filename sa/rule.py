"""Base of the rules (monitors) and helpers to read the values they see."""
import re
from terms import *
from facts import tshow
import lib

FRAME = "tchannel_rs::frames::TFrameId"


class Rule:
    """one rule; its state is a tuple of terms and constants kept in st.mon"""
    name = None
    prop = None
    init_state = ()
    E = None
    weak = False    # values in the state do not keep facts alive

    def __init__(self, prop=None):
        if prop:
            self.prop = prop
        if self.name is None:
            self.name = type(self).__name__
        self.counts = {}
        self.notes = {}

    def init(self, st):
        self.put(st, self.init_state)

    def spawned(self, child, parent):
        pass

    def compact(self, st):
        """replace values by what they are needed for (called before dead facts are dropped)"""

    def prune(self, st, syms):
        """forget values the program no longer has (weak rules)"""
        def w(x):
            if isinstance(x, N):
                return x if all(s in syms or str(s.a[0]).startswith("arg") for s in syms_of(x)) else UNINIT
            if isinstance(x, tuple):
                return tuple(w(y) for y in x)
            return x
        self.put(st, w(self.get(st)))

    def get(self, st):
        return st.mon.get(self.name, self.init_state)

    def put(self, st, v):
        m = dict(st.mon)
        m[self.name] = v
        st.mon = m

    def terms(self, st):
        return self.get(st)

    def key(self, st):
        return self.get(st)

    def rename(self, st, m):
        self.put(st, m(self.get(st)))

    # ---- accounting of what was looked at
    def seen(self, what, site=None):
        s = self.counts.setdefault(what, {})
        s[site] = s.get(site, 0) + 1

    def count(self, what):
        return len(self.counts.get(what, ()))

    def fail(self, st, key, msg, c=None):
        self.E.violation(st, self.prop, key, msg, c)

    # ---- reading values
    def fld(self, st, v, adtname, field):
        """field of a struct value, by name"""
        a = self.E.F.adts.get(adtname)
        if a is None:
            return None
        for i, (n, t) in enumerate(a["variants"][0][2]):
            if n == field:
                return self.E.proj(st, v, ("f", i))
        return None

    def frame_id(self, st, v):
        return self.fld(st, v, FRAME, "id")

    def frame(self, st, v):
        return self.fld(st, v, FRAME, "frame")

    def payload(self, st, v):
        f = self.frame(st, v)
        return None if f is None else self.fld(st, f, "tchannel_rs::frames::TFrame", "payload")

    def frame_type(self, st, v):
        """name of the type of a frame with id, or None when it is not known"""
        f = self.frame(st, v)
        if f is None:
            return None
        t = self.fld(st, f, "tchannel_rs::frames::TFrame", "frame_type")
        return self.variant_name(st, t, "tchannel_rs::frames::Type")

    def variant_name(self, st, t, d):
        vs = self.E.variants_of(d)
        if t is None or not vs:
            return None
        if is_adt(t, d):
            return vs[t.a[1]][0]
        f = st.facts.get(mk("discr", t, d))
        if f is None:
            return None
        if f[0] == "=":
            for n, dv, fl in vs:
                if dv == f[1]:
                    return n
            return None
        left = [n for n, dv, fl in vs if dv not in f[1]]
        return left[0] if len(left) == 1 else None

    def may_be(self, st, v, name):
        """can a frame with id be of the named type"""
        f = self.frame(st, v)
        vs = self.E.variants_of("tchannel_rs::frames::Type")
        t = None if f is None else self.fld(st, f, "tchannel_rs::frames::TFrame", "frame_type")
        if t is None or not vs:
            return False
        if is_adt(t):
            return vs[t.a[1]][0] == name
        x = st.facts.get(mk("discr", t, "tchannel_rs::frames::Type"))
        dv = [d for n, d, fl in vs if n == name]
        return bool(dv) and (x is None or (x[1] == dv[0] if x[0] == "=" else dv[0] not in x[1]))

    def is_frame(self, st, v):
        return is_adt(v, FRAME)

    def deep(self, st, v, n=0):
        """value with references and boxes followed"""
        k = 0
        while v.op in ("ref", "box", "arc") and k < 8:
            v = self.E.load(st, self.E.deref(v))
            k += 1
        return v


def ops_in(v, f):
    """does any sub term satisfy f"""
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if f(x):
            return True
        todo.extend(kids(x))
    return False


def is_vague(v):
    """the analysis does not know exactly what this is"""
    return ops_in(v, lambda x: x.op == "sym" and isinstance(x.a[0], str) and (
        x.a[0].startswith(("wid", "ret:", "hav:", "retained", "await", "pure", "default", "join"))) or x.op == "uninit")


def contains(v, w):
    return ops_in(v, lambda x: x is w)


def res_parts(v):
    """(variant name, content) of a Result value"""
    if is_adt(v, RES):
        return ("Ok", "Err")[v.a[1]], (v.a[2] if len(v.a) > 2 else UNIT)
    return None, v


def term_type(E, x, n=0):
    """declared type of a value read through fields of the arguments of the entry point"""
    if n > 20:
        return None
    if x.op == "sym":
        m = re.match(r"arg(\d+)$", str(x.a[0]))
        if m and E.argtypes and int(m.group(1)) < len(E.argtypes):
            return E.argtypes[int(m.group(1))]
        return None
    if x.op == "der":
        t = term_type(E, x.a[0], n + 1)
        if t and t[0] == "ref":
            return t[2][0]
        if t and t[0] == "adt" and t[2] and ("::Arc" in t[1] or "::Box" in t[1] or "::Rc" in t[1]):
            return t[2][0]
        return None
    if x.op == "with":
        return term_type(E, x.a[0], n + 1)
    if x.op == "fld" and x.a[1][0] == "f":
        t = term_type(E, x.a[0], n + 1)
        if t and t[0] == "adt":
            a = E.F.adts.get(t[1])
            if a and len(a["variants"]) == 1 and x.a[1][1] < len(a["variants"][0][2]):
                return E.F.subst(a["variants"][0][2][x.a[1][1]][1], dict(zip(a.get("generics") or (), t[2])))
        return None
    return None


def field_of(E, x):
    """(type, field name) a value was read from"""
    if x.op == "fld" and x.a[1][0] == "f":
        t = term_type(E, x.a[0])
        if t and t[0] == "adt":
            a = E.F.adts.get(t[1])
            if a and len(a["variants"]) == 1 and x.a[1][1] < len(a["variants"][0][2]):
                return t[1], a["variants"][0][2][x.a[1][1]][0]
    return None


_kinds = {}


def map_kind(E, vt):
    """which of the tables of the crate holds values of type vt"""
    k = _kinds.get(vt)
    if k is None:
        k = _kinds[vt] = _map_kind(E, vt)
    return k


def _map_kind(E, vt):
    cur, seen = vt, set()
    for i in range(4):
        if "MessageArgsHandler" in cur:
            return "handlers"
        if "bb8::" in cur:
            return "pools"
        if "tchannel_rs::subchannel::SubChannel" in cur:
            return "subchannels"
        if "mpsc" in cur and "Sender" in cur and "TFrameId" in cur:
            return "pending"
        nxt = ""
        for d in re.findall(r"tchannel_rs::[\w:]+", cur):
            a = E.F.adts.get(d)
            if a and d not in seen:
                seen.add(d)
                nxt += " ".join(tshow(t) for v in a["variants"] for n, t in v[2])
        cur = nxt
        if not cur:
            break
    return "other"
