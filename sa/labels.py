"""Encodings of messages (C15): the label a message is sent with, the label a message received has, and what a message is made of."""
import lib
import roots
import cutting
from terms import *
from rule import Rule
from codec import NUM, adt_path, parts, widened
from engine import L

LABEL = {"Raw": "raw", "Json": "json", "Http": "http", "Thrift": "thrift", "StreamingThrift": "sthrift"}
OF = {"RawMessage": "Raw", "JsonMessage": "Json"}
AS = S("as")


def scheme_adt(F):
    r = [q for q in F.adts if q.endswith("::ArgSchemeValue")]
    return r[0] if len(r) == 1 else None


def schemes(F):
    """[(name, term)] of the encodings whose label is known"""
    p = scheme_adt(F)
    return [] if p is None else [(n, mk("agg", ("adt", p), i)) for i, (n, _, fl) in enumerate(F.adts[p]["variants"]) if n in LABEL and not fl]


def vague(v):
    return widened(v) or any(x.op == "seq" and any(k != "e" for k, _ in x.a) for x in parts(v))


class Labelled(Rule):
    """messages are sent with the label of their encoding"""
    name = "labelled"
    prop = "C15"
    weak = True
    scheme = ("Raw", None)

    def on_encode(self, st, kw, c):
        if kw["type"] not in ("CallRequestFields", "CallResponseFields") or st.imprecise:
            return
        p = adt_path(self.E.F, kw["type"])
        h = None if p is None else self.fld(st, kw["value"], p, "headers")
        if h is None or h.op != "map" or h.a[0] is not lib.EMPTYMAP or any(k.op != "str" for k, _ in h.a[1:]):
            self.seen("not followed", kw["type"])
            return
        want = LABEL[self.scheme[0]]
        v = [x for k, x in h.a[1:] if k is AS]
        if not v or v[0] is lib.GONE:
            self.fail(st, "message without a label", "a %s of a message encoded as %s is sent without the header that says so" % (kw["type"], want), c)
        elif v[0].op == "str" and v[0].a[0] != want:
            self.fail(st, "wrong label", "a %s of a message encoded as %s is sent with the label %s" % (kw["type"], want, v[0].a[0]), c)
        elif v[0].op == "str":
            self.seen("labels sent", (kw["type"], want))
        else:
            self.seen("not followed", kw["type"])


def sent(F, root, rule, limit):
    """requests or responses of every encoding (root: the type of the fragmenter)"""
    new = roots.root_fns(F, "fn:%s::new" % root)
    make = roots.root_fns(F, "fn:%s::create_frames" % root)
    E = roots.engine_for(F, [rule], dict(NUM, join_after=10**9, widen_after=8, max_disj=10**6, drop_after=2, log=False, summaries=lib.codec_summaries(F)), max_time=limit, max_steps=4000000)
    ma = [q for q in F.adts if q.endswith("::MessageArgs")]
    for name, v in schemes(F):
        rule.scheme = (name, v)
        for p in new:
            b = F.bodies[p]
            args = [mk("sym", "arg%d" % i, 0) for i in range(b.argc)]
            for i, t in enumerate(b.locals[1:b.argc + 1]):
                if t[0] == "adt" and t[1] in ma:
                    args[i] = adt(t[1], 0, *[v if n == "arg_scheme" else mk("seq", ("e", S(""))) for n, _ in F.adts[t[1]]["variants"][0][2]])
            st = roots.start(E, p, args)
            st.stack = (("n", "then", ("frames", make[0])),) + st.stack[1:]
            E.run(p, st)
            rule.seen("fragmenters", p)
    return E


class Told(cutting.Assemble):
    """messages are taken for what their label says, and not at all without a label that is known"""
    name = "told"
    prop = "C15"
    weak = False
    init_state = ()

    def decoded(self, st, typ, src):
        E = self.E
        base = mk("app", "decoded:" + typ, src)
        p, ca = adt_path(E.F, typ), adt_path(E.F, "CallArgs")
        if p is None or ca is None or typ == "CallContinue" or self.get(st):
            return []       # the label is in the first frame; messages of more frames are not followed
        vals = []
        for n, (name, t) in enumerate(E.F.adts[p]["variants"][0][2]):
            x = E.proj(st, base, ("f", n))
            if name == "args":
                a = mk("seq", ("e", some(mk("sym", "argpart", 0))))
                x = adt(ca, 0, *[a if nm == "args" else E.proj(st, x, ("f", m)) for m, (nm, _) in enumerate(E.F.adts[ca]["variants"][0][2])])
            elif name == "fields":
                q = adt_path(E.F, typ + "Fields")
                h = None if q is None else self.fld(st, x, q, "headers")
                self.put(st, (h,) if h is not None else ())
            vals.append(x)
        return [(st, adt(p, 0, *vals))] if self.get(st) else []

    def deliver(self, st, v, c):
        E = self.E
        p = adt_args(E.F)
        if st.imprecise or p is None or not is_adt(v, p) or not self.get(st):
            return
        h = self.get(st)[0]
        s = self.fld(st, v, p, "arg_scheme")
        if h is None or s is None or vague(s):
            return
        sp = scheme_adt(E.F)
        if is_adt(s, sp) and E.F.adts[sp]["variants"][s.a[1]][0] not in LABEL:
            return      # an encoding of no message
        has = E.decide(st, mk("has", h, AS))
        told = mk("fld", h, ("k", AS))
        known = {n: E.decide(st, E.cmp_eq(told, S(LABEL[n]))) for n, _ in schemes(E.F)}
        taken = self.variants(st, s)
        self.seen("messages read", tuple(sorted(n for n in known if known[n] == 1)))
        if has == 0:
            self.fail(st, "no label", "a message without a label of its encoding is accepted", c)
        elif all(x == 0 for x in known.values()):
            self.fail(st, "unknown label", "a message with a label no encoding has is accepted", c)
        elif 1 in known.values():
            n = next(n for n in known if known[n] == 1)
            if taken is not None and n not in taken:
                self.fail(st, "taken for another encoding", "a message labelled %s is taken for one encoded as %s" % (LABEL[n], "/".join(LABEL.get(x, x) for x in sorted(taken))), c)
        elif has == 1 and self.loosely(st, told):
            self.fail(st, "label not looked at exactly", "a message is accepted with labels which are not exactly that of an encoding", c)
        elif has is None and self.elsewhere(st, h):
            self.fail(st, "label not looked at", "a message is accepted whatever its label says", c)

    def loosely(self, st, told):
        """the label was only compared in ways that other labels pass as well"""
        loose = False
        for t, f in st.facts.items():
            if not any(x is told for x in parts(t)):
                continue
            if t.op == "eq" and f == ("=", 0):
                x = [y for y in t.a if y.op != "str"]
                if len(x) == 1 and (x[0] is told or changed(x[0], told)):
                    continue
                return False
            if t.op == "eq" and f == ("=", 1) and any(changed(x, told) for x in t.a) and any(x.op == "str" for x in t.a):
                loose = True
            elif t.op == "app" and str(t.a[0]).rsplit("::", 1)[-1] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and t.a[1] is told and t.a[2].op == "str" and f[0] == "=":
                loose = loose or f[1] == 1
            else:
                return False
        return loose

    def elsewhere(self, st, h):
        """nothing known on the way here is about the label"""
        for t in st.facts:
            ps = parts(t)
            if any(str(x.a[0]).startswith(("pure", "unk", "havoc", "any", "opq")) for x in syms_of(t)):
                return False
            if any(x is h for x in ps):
                ks = [x.a[1] for x in ps if x.op == "has" and x.a[0] is h] + [x.a[1][1] for x in ps if x.op == "fld" and x.a[0] is h and isinstance(x.a[1], tuple) and x.a[1][0] == "k"]
                if not ks or any(k.op != "str" or k is AS or k.a[0] == "#" for k in ks):
                    return False
        return True

    def variants(self, st, s):
        """encodings a value may be; None when nothing is known"""
        E = self.E
        p = scheme_adt(E.F)
        if is_adt(s, p):
            return {E.F.adts[p]["variants"][s.a[1]][0]}
        n = self.variant_name(st, s, p)
        if n is not None:
            return {n}
        d = {n: E.decide(st, E.cmp_eq(s, t)) for n, t in schemes(E.F)}
        if 1 in d.values():
            return {n for n in d if d[n] == 1}
        return None


def changed(x, told):
    return x.op == "app" and str(x.a[0]).startswith("text:") and (x.a[1] is told or changed(x.a[1], told))


def adt_args(F):
    return cutting.adt_args(F)


def told(F, root, rule, limit):
    """messages of one frame with any headers (root: fn:Type::method)"""
    return cutting.assemble(F, root, rule, limit)


class MadeOf(Rule):
    """a message is made of its arguments, in order, and the arguments of a message are its parts"""
    name = "made of"
    prop = "C15"
    weak = True
    msg = "RawMessage"
    way = None      # parts of the message, or the arguments it is made from and their encoding

    def on_exit(self, st, kw, c):
        v = kw["value"]
        if not is_adt(v, RES) or st.imprecise:
            return
        if v.a[1] != 0:
            self.seen("refused", (self.way, self.msg))
            return
        x = v.a[2]
        if self.way[0] == "into":
            self.into(st, x, c)
        else:
            self.made(st, x, c)

    def into(self, st, x, c):
        p = adt_args(self.E.F)
        if not is_adt(x, p):
            return
        s, a = self.fld(st, x, p, "arg_scheme"), self.fld(st, x, p, "args")
        sp = scheme_adt(self.E.F)
        if is_adt(s, sp):
            n = self.E.F.adts[sp]["variants"][s.a[1]][0]
            if n != OF[self.msg]:
                self.fail(st, "wrong encoding", "the arguments of a %s are said to be encoded as %s" % (self.msg, n), c)
            self.seen("encodings", self.msg)
        if a.op != "seq" or vague(a):
            self.seen("not followed", self.msg)
            return
        if len(a.a) != 3:
            self.fail(st, "wrong number of arguments", "a %s is sent with %d arguments instead of 3" % (self.msg, len(a.a)), c)
            return
        for k, (_, y) in enumerate(a.a):
            self.same(st, y, "part", k, c, "argument %d of a %s sent" % (k + 1, self.msg))

    def made(self, st, x, c):
        _, scheme, n = self.way
        p = self.path()
        if scheme != OF[self.msg]:
            self.fail(st, "another encoding accepted", "a %s is made from arguments encoded as %s" % (self.msg, scheme), c)
            return
        self.seen("messages made", (self.msg, n))
        if is_adt(x, p):
            for k in range(min(n, 3)):
                self.same(st, x.a[k + 2], "argpart", k, c, "part %d of a %s received" % (k + 1, self.msg))

    def same(self, st, y, sym, k, c, what):
        """y is the content of the k-th symbol, encoded or decoded"""
        if y.op == "app" and y.a[0] in ("json_text", "json_parse") and len(y.a) == 2:
            y = y.a[1]
        syms = [s for s in syms_of(y) if s.a[0] == sym]
        if not syms and not syms_of(y) and not vague(y):
            if self.E.decide(st, self.E.cmp_eq(lib.lenof(self.E, st, mk("sym", sym, k)), I(0))) == 1:
                return      # there is nothing to it
            self.fail(st, "argument lost", "%s is always empty or the same" % what, c)
        elif len(syms) == 1 and syms[0].a[1] != k:
            self.fail(st, "arguments mixed up", "%s is made from number %d" % (what, syms[0].a[1] + 1), c)
        elif len(syms) == 1 and any(z.op == "app" and str(z.a[0]).startswith("text:") for z in parts(y)):
            self.fail(st, "argument changed", "%s is not what it was: %s" % (what, show(y)[:60]), c)
        elif len(syms) == 1 and not vague(y):
            b, o, n = lib.bufp(y)
            if b is syms[0] and not (o is I(0) and n is lib.lenof(self.E, st, b)):
                if self.E.decide(st, self.E.cmp_eq(o, I(0))) == 1 and self.E.decide(st, self.E.cmp_eq(n, lib.lenof(self.E, st, b))) == 1:
                    return
                self.fail(st, "argument cut", "%s is only part of it" % what, c)
            elif b is syms[0]:
                self.seen("arguments compared", (self.msg, self.way, k))
            else:
                self.seen("not followed", self.msg)
        else:
            self.seen("not followed", self.msg)

    def path(self):
        r = [q for q in self.E.F.adts if q.endswith("::" + self.msg)]
        return r[0] if len(r) == 1 else None


def made_of(F, root, rule, limit):
    """a message into arguments and back (root: the type of the message)"""
    rule.msg = root
    mp = [q for q in F.adts if q.endswith("::" + root)]
    ma = adt_args(F)
    if len(mp) != 1 or ma is None or len(F.adts[mp[0]]["variants"][0][2]) != 3:
        raise roots.Missing("%s of three parts" % root)
    E = None
    into = roots.trait_fn(F, "TryInto", "try_into", "::" + root) or roots.trait_fn(F, "TryFrom", "try_from", "::MessageArgs", "::" + root) + roots.trait_fn(F, "From", "from", "::MessageArgs", "::" + root)
    made = roots.trait_fn(F, "TryFrom", "try_from", "::" + root, "::MessageArgs")
    if not into and not made:
        raise roots.Missing("conversions of %s" % root)
    opts = dict(NUM, join_after=10**9, widen_after=8, max_disj=10**6, log=False)
    E = roots.engine_for(F, [rule], opts, max_time=limit, max_steps=1000000)
    for p in into:
        rule.way = ("into",)
        E.run(p, roots.start(E, p, [adt(mp[0], 0, *[mk("sym", "part", k) for k in range(3)])]))
        rule.seen("conversions", p)
    for p in made:
        for name, v in schemes(F):
            for n in ((0, 1, 2, 3) if name == OF[root] else (3,)):
                rule.way = ("from", name, n)
                a = mk("seq", *(("e", mk("sym", "argpart", k)) for k in range(n)))
                E.run(p, roots.start(E, p, [adt(ma, 0, *[v if f == "arg_scheme" else a for f, _ in F.adts[ma]["variants"][0][2]])]))
        rule.seen("conversions", p)
    return E


class Checked(cutting.Assemble):
    """frames with a checksum are only taken when it was looked at"""
    name = "checked"
    prop = "C25"
    weak = False
    init_state = ()     # checksum types and checksums of the frames decoded so far

    def decoded(self, st, typ, src):
        E = self.E
        fs = self.get(st)
        base = mk("app", "decoded:" + typ, src)
        p, ca = adt_path(E.F, typ), adt_path(E.F, "CallArgs")
        if p is None or ca is None or len(fs) >= self.MOST:
            return []
        vals = []
        for n, (name, t) in enumerate(E.F.adts[p]["variants"][0][2]):
            x = E.proj(st, base, ("f", n))
            if name == "args":
                a = mk("seq", ("e", some(mk("sym", "argpart", len(fs)))))
                f = {nm: a if nm == "args" else E.proj(st, x, ("f", m)) for m, (nm, _) in enumerate(E.F.adts[ca]["variants"][0][2])}
                if "checksum_type" not in f or "checksum" not in f:
                    return []
                self.put(st, fs + ((f["checksum_type"], f["checksum"]),))
                x = adt(ca, 0, *f.values())
            vals.append(x)
        return [(st, adt(p, 0, *vals))]

    def deliver(self, st, v, c):
        p = adt_args(self.E.F)
        if st.imprecise or p is None or not is_adt(v, p):
            return
        for i, (t, x) in enumerate(self.get(st)):
            self.seen("frames", (i + 1, len(self.get(st))))
            n = self.variant_name(st, t, cutting.P + "ChecksumType")
            if n == "None" or any(any(y is x for y in parts(k)) for k in st.facts):
                continue
            if any(str(s.a[0]).startswith(("pure", "unk", "havoc", "any", "opq")) for k in st.facts for s in syms_of(k)):
                continue
            self.fail(st, "checksum not verified", "a message is delivered whose frame %d has a checksum%s nobody looked at" % (i + 1, "" if n is None else " of type %s" % n), c)


class Required(Rule):
    """requests carry the time they may take and the name of their caller"""
    name = "required"
    prop = "C26"
    weak = True
    scheme = ("Raw", None)
    KEYS = 16       # bytes of a name of a header, at most

    def on_encode(self, st, kw, c):
        typ = kw["type"]
        if typ not in ("CallRequestFields", "CallResponseFields") or st.imprecise:
            return
        p = adt_path(self.E.F, typ)
        h = None if p is None else self.fld(st, kw["value"], p, "headers")
        if h is None or h.op != "map" or h.a[0] is not lib.EMPTYMAP or any(k.op != "str" for k, _ in h.a[1:]):
            self.seen("not followed", typ)
            return
        hs = {k.a[0]: x for k, x in h.a[1:] if x is not lib.GONE}
        for k in hs:
            if len(k.encode()) > self.KEYS:
                self.fail(st, "name of a header too long", "a %s has the header %s; names may have 16 bytes" % (typ, k), c)
        if typ == "CallRequestFields":
            if "cn" not in hs:
                self.fail(st, "caller not named", "a request is sent without the header cn", c)
            elif hs["cn"] is S(""):
                self.fail(st, "caller not named", "a request is sent with an empty header cn", c)
            else:
                self.seen("callers", "cn")
            ttl = self.fld(st, kw["value"], p, "ttl")
            if ttl is not None and ttl.op == "int":
                self.seen("times to live", ttl.a[0])
                if ttl.a[0] <= 0:
                    self.fail(st, "no time to live", "a request is sent with a time to live of 0, so it is over before it begins", c)
            elif ttl is not None and not vague(ttl) and not syms_of(ttl):
                self.seen("not followed", "ttl")
