"""Messages cut into frames (C20) and put together again from frames (C09), on messages of three arguments of any content and size."""
import lib
import roots
from terms import *
from facts import T
from rule import Rule
from codec import NUM, MAX_PAYLOAD, Unclear, Mismatch, P, widened, adt_path, parts, LAYOUT
from engine import L

FRAGMENT = {"RequestFragmenter": ("CallRequest", "CallRequestContinue"), "ResponseFragmenter": ("CallResponse", "CallResponseContinue")}


def kind(typ):
    """continuation frames of both directions carry the same payload"""
    return "CallContinue" if typ.endswith("Continue") else typ


def together(frames):
    """arguments made up of the fragments of frames, as the protocol has it: [[piece, ...], ...]"""
    args = []
    for i, f in enumerate(frames):
        for k, x in enumerate(f):
            if k == 0 and i and args:
                args[-1].append(x)
            else:
                args.append([x])
    return args


def pieces(v):
    """content as a list of pieces without the empty ones; None when not known exactly"""
    if v.op == "str" and not v.a[0]:
        return []
    if v.op == "seq":
        out = []
        for k, x in v.a:
            if k != "e" or not lib.is_w(x):
                return None
            y = pieces(x.a[3])
            if y is None:
                return None
            out += y
        return out
    return [v]


class Cut(Rule):
    """frames of a message: types, flags, sizes, and the arguments they carry"""
    name = "cut"
    prop = "C20"
    weak = True
    types = FRAGMENT["RequestFragmenter"]
    args = ()
    most = MAX_PAYLOAD

    def on_exit(self, st, kw, c):
        v = kw["value"]
        if not is_adt(v, RES) or v.a[1] != 0:
            return
        self.seen("ways through", self.E.rootname)
        if st.imprecise:
            return
        try:
            fs = self.stream(st, v.a[2])
            self.frames(st, fs)
            self.seen("messages of frames", len(fs))
        except Mismatch as e:
            self.fail(st, str(e).split(":")[0], str(e), c)
        except Unclear:
            self.seen("not followed", "frames")

    def stream(self, st, v):
        x = self.E.rd(st, v)
        if is_nat(x, "iter"):
            x = x.a[2]
        if x.op != "seq" or any(k != "e" for k, _ in x.a):
            raise Unclear()
        return [y for k, y in x.a]

    def field(self, st, v, typ, name):
        p = adt_path(self.E.F, typ)
        x = None if p is None else self.fld(st, v, p, name)
        if x is None or x.op == "fld" and v.op != "agg":
            raise Unclear()
        return x

    def frames(self, st, fs):
        E = self.E
        if not fs:
            raise Mismatch("a message is cut into no frames")
        carried = []
        for i, f in enumerate(fs):
            last = i == len(fs) - 1
            t = self.variant_name(st, self.field(st, f, "TFrame", "frame_type"), "tchannel_rs::frames::Type")
            if t is None:
                raise Unclear()
            want = self.types[1 if i else 0]
            if t != want:
                raise Mismatch("frame of a wrong type: frame %d of a message is a %s instead of a %s" % (i + 1, t, want))
            pl = self.field(st, f, "TFrame", "payload")
            if pl.op == "seq" and len(pl.a) == 1 and pl.a[0][0] == "e" and lib.is_w(pl.a[0][1]):
                pl = pl.a[0][1].a[3]
            if pl.op != "app" or not str(pl.a[0]).startswith("encoded:"):
                raise Unclear()
            typ = pl.a[0][len("encoded:"):]
            v = pl.a[1]
            if i and typ != "CallContinue" or not i and typ == "CallContinue":
                raise Mismatch("payload of a wrong type: frame %d of a message has the payload of a %s" % (i + 1, typ))
            fl = self.field(st, v, typ, "flags")
            b = fl.a[2] if fl.op == "agg" and len(fl.a) == 3 else fl
            if b.op == "int":
                if bool(b.a[0] & 1) != (not last):
                    raise Mismatch("wrong flag: %s" % ("the last frame says that more fragments follow" if last else "frame %d is followed by others but does not say so" % (i + 1)))
                self.seen("flags", (i, last))
            ca = self.field(st, v, typ, "args")
            n = self.variant_name(st, self.field(st, ca, "CallArgs", "checksum_type"), P + "ChecksumType")
            a = self.field(st, ca, "CallArgs", "args")
            if a.op != "seq" or any(k != "e" or not is_adt(x, OPT) for k, x in a.a):
                raise Unclear()
            p = [x.a[2] if x.a[1] == 1 else mk("seq") for k, x in a.a]
            if any(widened(x) for x in p):
                raise Unclear()
            if not p:
                raise Mismatch("a frame without arguments: frame %d of a message carries none and cannot be read" % (i + 1))
            if len(p) > 3:
                raise Mismatch("more than three arguments in a frame")
            size = I(1 + (1 if n == "None" else 5))
            if typ == "CallWithFieldsEncoded":
                size = ladd(size, lib.lenof(E, st, self.field(st, v, typ, "fields")))
            elif typ != "CallContinue":
                raise Unclear()
            for x in p:
                size = ladd(ladd(size, I(2)), lib.lenof(E, st, x))
            room = ladd(lscale(size, -1), I(self.most))
            if not E.prove(st, room):
                raise Mismatch("frame too large: frame %d of a message may be larger than a frame can be" % (i + 1))
            carried.append(p)
        self.whole(st, together(carried))

    def whole(self, st, got):
        E = self.E
        if len(got) != len(self.args):
            raise Mismatch("arguments lost or run together: the frames of a message carry %d arguments instead of %d" % (len(got), len(self.args)))
        for k, (ps, want) in enumerate(zip(got, self.args)):
            off = I(0)
            for x in ps:
                q = pieces(x)
                if q is None:
                    raise Unclear()
                for y in q:
                    b, o, n = lib.bufp(y)
                    if b is not want:
                        if b.op == "sym" and b.a[0] == "argbytes":
                            raise Mismatch("arguments mixed up: bytes of one argument are sent in the place of another")
                        raise Unclear()
                    if o is not off:
                        d = E.decide(st, E.cmp_eq(o, off))
                        if d != 1:
                            raise Mismatch("bytes of an argument lost or sent twice: fragments of argument %d do not follow each other" % (k + 1))
                    off = ladd(off, n)
            ln = lib.lenof(E, st, want)
            if off is not ln and E.decide(st, E.cmp_eq(off, ln)) != 1:
                raise Mismatch("bytes of an argument lost or sent twice: the fragments of argument %d do not make up all of it" % (k + 1))


def most_payload(F):
    """the largest payload the encoders accept"""
    c = [v.get("int") for k, v in F.consts.items() if k.endswith("::FRAME_MAX_LENGTH") and isinstance(v, dict)]
    if len(c) == 1 and c[0] is not None:
        return min(MAX_PAYLOAD, int(c[0]) - 16)
    return MAX_PAYLOAD


def then_frames(E, st, data, v):
    """v is the fragmenter: ask it for the frames"""
    b = E.F.bodies[data[1]]
    st.stack = (("n", "then", ("await_root",)),) + st.stack
    E.push(st, b, (), [v])
    return [st]


lib.THEN["frames"] = then_frames


def most_bytes(rule, st, v, typ):
    """upper bound of the size of an encoded value, from its layout (C02, C10); None when there is none"""
    n = 0
    for it in LAYOUT[typ]:
        if isinstance(it[0], int):
            n += it[0]
            continue
        p = adt_path(rule.E.F, typ)
        f = None if p is None else rule.fld(st, v, p, it[1])
        if f is None:
            return None
        if it[0] == "in":
            m = most_bytes(rule, st, f, it[2])
        elif it[0] == "str" and it[2] == 1:
            m = 256
        elif it[0] == "headers" and it[2] == 1:
            k = len(f.a) - 1 if f.op == "map" and f.a[0].op == "emptymap" else 255
            m = 1 + k * 512
        else:
            m = None
        if m is None:
            return None
        n += m
    return n


def sum_encode(typ, rule):
    base = lib.sum_encode(typ)

    def f(E, st, c):
        n = most_bytes(rule, st, c.args[0], typ)
        if n is not None:
            st.ineqs = st.ineqs | {ladd(lscale(mk("app", "len", mk("app", "encoded:" + typ, c.args[0])), -1), I(n))}
        return base(E, st, c)
    return f


def cut(F, root, rule, limit, frames=4):
    """the frames of requests or responses of three arguments (root: the type of the fragmenter)"""
    new = roots.root_fns(F, "fn:%s::new" % root)
    make = roots.root_fns(F, "fn:%s::create_frames" % root)
    sm = lib.codec_summaries(F)
    for i in F.impls:
        nm = (i["self"][1] or "?").rsplit("::", 1)[-1]
        if (i["trait"] or "").endswith("frames::payloads::Codec") and nm in ("CallRequestFields", "CallResponseFields"):
            sm[i["items"].get("encode")] = sum_encode(nm, rule)
    E = roots.engine_for(F, [rule], dict(NUM, join_after=10**9, widen_after=1000, max_disj=10**6, drop_after=frames, log=False, summaries=sm), max_time=limit, max_steps=4000000)
    rule.types = FRAGMENT[root]
    rule.most = most_payload(F)
    rule.args = tuple(mk("sym", "argbytes", k) for k in range(3))
    ma = [q for q in F.adts if q.endswith("::MessageArgs")]
    for p in new:
        b = F.bodies[p]
        args = []
        for i, t in enumerate(b.locals[1:b.argc + 1]):
            v = mk("sym", "arg%d" % i, 0)
            if t[0] == "adt" and t[1] in ma:
                v = adt(t[1], 0, *[mk("seq", *(("e", x) for x in rule.args)) if n == "args" else mk("sym", "argscheme", 0) for n, _ in F.adts[t[1]]["variants"][0][2]])
                rule.seen("fragmenters", p)
            args.append(v)
        if not rule.count("fragmenters"):
            raise roots.Missing("%s::new(MessageArgs)" % root)
        st = roots.start(E, p, args)
        st.stack = (("n", "then", ("frames", make[0])),) + st.stack[1:]
        st.ineqs = frozenset(ladd(lscale(lib.lenof(E, st, x), -1), I(MOST_BYTES)) for x in rule.args)
        E.run(p, st)
    return E


# ---------------------------------------------------------------- putting together
MOST_BYTES = 1 << 30    # of an argument
FIRST = ("S", "N", "SS", "NS", "SSS")       # arguments of the first frame: S some bytes, N none
NEXT = ("S", "N", "SS", "NS", "SN")


class Assemble(Rule):
    """the arguments of a message are the fragments of its frames, in order"""
    name = "assemble"
    prop = "C09"
    init_state = ((), False)     # shapes of the frames decoded so far, whether the last one said that more follow
    MOST = 3

    def decoded(self, st, typ, src):
        """[(st, value)] for a frame decoded: with any arguments"""
        E = self.E
        fs, more = self.get(st)
        out = []
        if len(fs) >= self.MOST:
            return []       # messages of more frames are not followed
        i = len(fs)
        p, ca = adt_path(E.F, typ), adt_path(E.F, "CallArgs")
        if p is None or ca is None:
            st.imprecise = True
            return [(st, mk("app", "decoded:" + typ, src))]
        base = mk("app", "decoded:" + typ, src)
        for sh in NEXT if fs else FIRST:
            s = st.copy()
            a = mk("seq", *(("e", NONE if ch == "N" else some(mk("sym", "argpart", i * 3 + k))) for k, ch in enumerate(sh)))
            vals = []
            for n, (name, t) in enumerate(E.F.adts[p]["variants"][0][2]):
                x = E.proj(s, base, ("f", n))
                if name == "args":
                    x = adt(ca, 0, *[a if nm == "args" else E.proj(s, x, ("f", m)) for m, (nm, _) in enumerate(E.F.adts[ca]["variants"][0][2])])
                vals.append(x)
            self.put(s, (fs + (sh,), False))
            out.append((s, adt(p, 0, *vals)))
        return out

    def deliver(self, st, v, c):
        fs, _ = self.get(st)
        p = adt_args(self.E.F)
        if st.imprecise or not fs or p is None or not is_adt(v, p):
            return
        a = self.fld(st, v, p, "args")
        if a is None or a.op != "seq" or any(k != "e" for k, _ in a.a) or widened(a):
            return
        want = together([[mk("seq") if ch == "N" else mk("sym", "argpart", i * 3 + k) for k, ch in enumerate(sh)] for i, sh in enumerate(fs)])
        want = [[y for x in w for y in pieces(x)] for w in want]
        got = [pieces(x) for k, x in a.a]
        if any(g is None for g in got):
            return
        self.seen("messages put together", fs)
        if len(got) != len(want):
            self.fail(st, "wrong number of arguments", "a message of the frames %s is delivered with %d arguments instead of %d" % ("+".join(fs), len(got), len(want)), c)
        elif any(g != w for g, w in zip(got, want)):
            k = next(i for i in range(len(got)) if got[i] != want[i])
            self.fail(st, "wrong content of an argument", "argument %d of a message of the frames %s is not made of its fragments in order: %s" % (k + 1, "+".join(fs), [show(x)[:30] for x in got[k]]), c)

    def on_user_try(self, st, kw, c):
        self.deliver(st, kw["src"], c)

    def on_exit(self, st, kw, c):
        p = adt_args(self.E.F)
        for x in parts(kw["value"]):
            if p is not None and is_adt(x, p):
                self.deliver(st, x, c)


def adt_args(F):
    r = [q for q in F.adts if q.endswith("::MessageArgs")]
    return r[0] if len(r) == 1 else None


def sum_decode(typ, rule):
    base = lib.sum_decode(typ)

    def f(E, st, c):
        pl = E.canon_place(st, c.args[0])
        v = E.load(st, pl)
        z = st.copy()
        E.emit(z, "decode_failed", c, type=typ, src=v)
        E.store(z, pl, mk("app", "rest_of:" + typ, v))
        out = E.ret(z, err(z.fresh("decodeerr")))
        for s, x in rule.decoded(st, typ, v):
            E.emit(s, "decode", c, type=typ, src=v)
            E.store(s, pl, mk("app", "rest_of:" + typ, v))
            out += E.ret(s, ok(x))
        return out
    return f


def then_read(E, st, data, v):
    b = E.F.bodies[data[1]]
    st.stack = (("n", "then", ("await_root",)),) + st.stack
    E.push(st, b, (), [v])
    return [st]


lib.THEN["read"] = then_read


def assemble(F, root, rule, limit, frames=3):
    """frames with any arguments in, message out (root: fn:Type::method)"""
    rule.MOST = frames
    fns = roots.root_fns(F, root)
    sm = lib.codec_summaries(F)
    for i in F.impls:
        if (i["trait"] or "").endswith("frames::payloads::Codec"):
            nm = (i["self"][1] or "?").rsplit("::", 1)[-1]
            q = i["items"].get("decode")
            if q and nm in ("CallRequest", "CallResponse", "CallContinue"):
                sm[q] = sum_decode(nm, rule)
                sm["r:" + q] = sm[q]
    E = roots.engine_for(F, [rule], dict(join_after=100000, widen_after=8, max_disj=100000, log=False, summaries=sm, collapse=100000), max_time=limit, max_steps=4000000)
    for p in fns:
        b = F.bodies[p]
        new = roots.root_fns(F, "fn:%s::new" % p.rsplit("::", 2)[-2])
        st = roots.start(E, new[0])
        st.stack = (("n", "then", ("read", p)),) + st.stack[1:]
        E.run(p, st)
        rule.seen("readers", p)
    return E
