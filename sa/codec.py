"""Entry points analysed with sizes: the decoders of what a peer sends, the encoders of what is sent, and the cutting of messages into frames."""
import lib
import roots
from terms import *
from facts import T
from rule import Rule

MAX_PAYLOAD = 65535 - 16
NUM = dict(summaries={}, nonum=False, log=True, collapse=100000, join_after=1000, max_disj=8000)
BUF = mk("sym", "heap:src", 0)


def widened(t):
    return any(str(s.a[0]) in ("wid", "left") for s in syms_of(t))


def parts(t):
    out = []
    walk(t, set(), out.append)
    return out


class Panics(Rule):
    """nothing a peer sends makes the code panic"""
    name = "panic"
    prop = "C03"
    weak = True
    fits = True     # no frame carries more than the protocol allows

    def on_panic(self, st, kw, c):
        w = kw["what"]
        x = kw.get("buf")
        if x is None:
            x = kw.get("cond")
        self.seen("panics looked into", w)
        if st.imprecise:
            return
        if x is not None and widened(x):
            self.E.undecided.add("%s: %s" % (w, show(x)[:80]))
            return
        self.fail(st, "panic: %s in %s" % (w, (self.E.site(st, c) or "?").split(":")[0]),
                  "bytes a peer may send make the decoder panic: %s %s" % (w, show(x)[:80] if x is not None else ""), c)

    def on_exit(self, st, kw, c):
        v = kw["value"]
        self.seen("ends", self.E.rootname)
        if is_adt(v, RES) and v.a[1] == 0 and is_adt(v.a[2], OPT) and v.a[2].a[1] == 1 and self.is_frame(st, v.a[2].a[2]):
            p = self.payload(st, v.a[2].a[2])
            self.seen("frames decoded")
            if p is None or not self.E.prove(st, ladd(lscale(lib.lenof(self.E, st, p), -1), I(MAX_PAYLOAD))):
                self.fits = False


class PeerPanics(Rule):
    """no explicit panic, unwrap or missing element is reached by what a peer does (sizes are left to the decoders)"""
    name = "panics"
    prop = "C03"
    weak = True
    EXPLICIT = ("panic", "unwrap", "expect", "unreachable", "assert_failed", "begin_panic", "missing key")

    def on_panic(self, st, kw, c):
        w = kw["what"]
        self.seen("panics looked into", w)
        if kw.get("buf") is None and kw.get("cond") is None and w.startswith(self.EXPLICIT) and not st.imprecise:
            self.fail(st, "reachable panic", "a peer can drive the library into a panic (%s)" % w, c)

    def on_read_wait(self, st, kw, c):
        self.seen("waits for frames", self.E.site(st, c))

    on_recv_wait = on_read_wait


def from_buffer(E, p):
    """state at the start of a function whose last argument is a buffer of any content"""
    b = E.F.bodies[p]
    src = mk("sym", "payload", 0)
    args = [mk("sym", "arg%d" % i, 0) for i in range(b.argc - 1)] + [mk("ref", BUF, ())]
    return roots.start(E, p, args, mem={BUF: src}), src


def decoders(F, root, rule, limit):
    """every decoder on its own, from any bytes a frame may carry; decoders used by others are taken to leave any shorter rest"""
    fns = roots.root_fns(F, root)
    E = roots.engine_for(F, [rule], dict(NUM), max_time=limit)
    E.undecided = set()
    for p in roots.root_fns(F, "impl:codec::decoder::Decoder/decode/"):
        E.opts["apart"] = frozenset(fns)
        E.run(p, from_buffer(E, p)[0])
        rule.seen("frame decoders", p)
    for p in fns:
        E.opts["apart"] = frozenset(q for q in fns if q != p)
        st, src = from_buffer(E, p)
        if rule.fits:
            st.ineqs = frozenset({ladd(lscale(lib.lenof(E, st, src), -1), I(MAX_PAYLOAD))})
        rule.seen("decoders", p)
        E.run(p, st)
    rule.notes["sizes not followed to the end"] = sorted(E.undecided)
    if E.undecided and not E.violations:
        E.roots[-1]["complete"] = False
    return E


# ---------------------------------------------------------------- layout of frames and payloads (C02, C10)
P = "tchannel_rs::frames::payloads::"
TR = ("in", "tracing", "Tracing")
LAYOUT = {      # as in the description of the protocol: (width | string~ | headers~ | args~, field)
    "Tracing": [(8, "span_id"), (8, "parent_id"), (8, "trace_id"), (1, "trace_flags")],
    "Init": [(2, "version"), ("headers", "headers", 2)],
    "CallArgs": [(1, "checksum_type"), ("opt", "checksum", 4), ("args", "args", 2)],
    "CallRequestFields": [(4, "ttl"), TR, ("str", "service", 1), ("headers", "headers", 1)],
    "CallResponseFields": [(1, "code"), TR, ("headers", "headers", 1)],
    "CallRequest": [(1, "flags"), ("in", "fields", "CallRequestFields"), ("in", "args", "CallArgs")],
    "CallResponse": [(1, "flags"), ("in", "fields", "CallResponseFields"), ("in", "args", "CallArgs")],
    "CallContinue": [(1, "flags"), ("in", "args", "CallArgs")],
    "Cancel": [(4, "ttl"), TR, ("str", "why", 2)],
    "Claim": [(4, "ttl"), TR],
    "ErrorMsg": [(1, "code"), TR, ("str", "message", 2)],
    "CallWithFieldsEncoded": [(1, "flags"), ("raw", "fields"), ("in", "args", "CallArgs")],
    "TFrameId": [("framesize",), ("in", "frame", "TFrame:type"), ("zero", 1), (4, "id"), ("zero", 8), ("in", "frame", "TFrame:payload")],
    "TFrame:type": [(1, "frame_type")],
    "TFrame:payload": [("raw", "payload")],
}
CODES = {       # values of enumerations on the wire
    "Type": {"InitRequest": 1, "InitResponse": 2, "CallRequest": 3, "CallResponse": 4, "CallRequestContinue": 0x13, "CallResponseContinue": 0x14,
             "Cancel": 0xc0, "Claim": 0xc1, "PingRequest": 0xd0, "PingResponse": 0xd1, "Error": 0xff},
    "ErrorCode": {"Invalid": 0, "Timeout": 1, "Cancelled": 2, "Busy": 3, "Declined": 4, "UnexpectedError": 5, "BadRequest": 6, "NetworkError": 7, "Unhealthy": 8,
                  "FatalProtocolError": 0xff},
    "ResponseCode": {"Ok": 0, "Error": 1},
    "ChecksumType": {"None": 0, "Crc32": 1, "Farmhash": 2, "Crc32C": 3},
}
WIDTH = {1: "u8", 2: "u16", 4: "u32", 8: "u64"}
DST = mk("sym", "heap:dst", 0)


def adt_path(F, name):
    n = name.split(":")[0]
    r = [p for p in F.adts if p.startswith("tchannel_rs::frames") and p.endswith("::" + n)]
    return r[0] if len(r) == 1 else None


class Mismatch(Exception):
    pass


class Unclear(Exception):
    pass


class Layout(Rule):
    """what an encoder writes and where a decoder reads from, field by field"""
    name = "layout"
    init_state = (mk("ref", DST, ()), mk("ref", BUF, ()), mk("sym", "payload", 0))

    def __init__(self, prop, encode, typ):
        Rule.__init__(self, prop)
        self.encode = encode
        self.typ = typ
        self.bytewise = False

    def fieldv(self, st, v, typ, name):
        p = adt_path(self.E.F, typ)
        if p is None:
            raise Unclear()
        x = self.fld(st, v, p, name)
        if x is None:
            raise Unclear()
        return x

    def bad(self, prop, msg):
        if prop == self.prop:
            raise Mismatch(msg)

    def on_exit(self, st, kw, c):
        v = kw["value"]
        if not is_adt(v, RES) or st.imprecise:
            return
        if v.a[1] != 0:
            return
        self.seen("ways through", self.E.rootname)
        try:
            if self.encode:
                self.written(st, c)
            else:
                self.read(st, v.a[2])
        except Mismatch as e:
            self.fail(st, str(e).split(":")[0], "%s: %s" % (self.typ, e), c)
        except Unclear:
            pass

    # ---- encoders
    def written(self, st, c):
        v = self.E.load(st, (DST, ()))
        if v.op != "seq":
            return
        self.segs = list(v.a)
        if any(lib.is_w(x) and x.a[3].op == "app" and x.a[3].a[0] == "be:u8" and any(y.op == "fld" and y.a[1][0] == "i" or y.op == "app" and y.a[0] == "elem" for y in parts(x.a[3])) for k, x in v.a):
            # texts written byte by byte
            self.bytewise = True
        self.pos = 0
        self.enc(st, self.arg, self.typ)
        if self.pos < len(self.segs):
            k, x = self.segs[self.pos]
            if k == "e":
                self.bad("C02", "more is written than the layout has: %s" % show(x)[:60])
        self.seen("layouts written", self.typ)

    def seg(self, what):
        if self.pos >= len(self.segs):
            self.bad("C02", "%s is not written" % what)
            raise Unclear()
        k, x = self.segs[self.pos]
        if k != "e" or widened(x):
            raise Unclear()
        self.pos += 1
        return (x.a[2], x.a[3]) if lib.is_w(x) else (None, x)

    def num(self, st, what, width):
        """number written next"""
        sz, x = self.seg(what)
        if sz is None or x.op != "app" or not x.a[0].startswith(("be:", "le:")):
            if x.op in ("str", "fld", "sym", "buf") or x.op == "seq" and not x.a:
                self.bad("C02", "%s is not written in its place: %s instead" % (what, show(x)[:60]))
            raise Unclear()     # bytes put together in another way
        if x.a[0].startswith("le:"):
            self.bad("C02", "%s is written in little endian order" % what)
        if sz is not I(width):
            if any(y.op == "app" and str(y.a[0]).startswith(("bin:Shl", "bin:BitOr")) for y in parts(x)):
                raise Unclear()     # several fields in one number
            self.bad("C02", "%s is written in %s bytes instead of %d" % (what, show(sz), width))
        return x.a[1]

    def bytes(self, st, what):
        sz, x = self.seg(what)
        if sz is not None and x.op == "app" and x.a[0].startswith(("be:", "le:")):
            self.bad("C02", "%s is not written in its place: %s instead" % (what, show(x)[:60]))
        return x

    def length(self, st, what, width, ln):
        n = self.num(st, "length of " + what, width)
        if n is ln:
            return
        while n.op == "app" and str(n.a[0]).startswith("cast:"):
            n = n.a[1]
            if n is ln and not self.E.prove(st, ladd(lscale(ln, -1), I((1 << 8 * width) - 1))):
                self.bad("C10", "length of %s may be cut off: it is written in %d bytes without a check that it fits" % (what, width))
        if n is ln or widened(n):
            return
        d = lsub(n, ln) if self.E.numeric(n) and self.E.numeric(ln) else None
        if d is not None and d is not I(0) and self.E.decide(st, self.E.cmp_eq(n, ln)) != 1:
            self.bad("C10", "length of %s is not that of what follows: %s" % (what, show(n)[:60]))
        elif d is None and n.op in ("int", "fld", "app"):
            self.bad("C10", "length of %s is not that of what follows: %s" % (what, show(n)[:60]))

    def same(self, st, what, x, want):
        if x is want or widened(x) or x.op == "sym" and not str(x.a[0]).startswith("arg"):
            return
        if want.op == "str" and not want.a[0] and x.op == "seq":
            return
        if self.E.numeric(x) and self.E.numeric(want) and self.E.decide(st, self.E.cmp_eq(x, want)) == 1:
            return
        self.bad("C02", "%s is not written in its place: %s instead" % (what, show(x)[:60]))

    def enc(self, st, v, typ):
        for it in LAYOUT[typ]:
            k = it[0]
            if k == "in":
                f = self.fieldv(st, v, typ, it[1])
                x = self.segs[self.pos][1] if self.pos < len(self.segs) else UNIT
                x = x.a[3] if lib.is_w(x) else x
                if x.op == "app" and str(x.a[0]).startswith("encoded:"):
                    self.pos += 1
                    if not (x.a[0] == "encoded:" + it[2] and x.a[1] is f):
                        self.bad("C02", "%s is not written in its place: %s instead" % (it[1], show(x)[:60]))
                else:
                    self.enc(st, f, it[2])
            elif k == "zero":
                left = it[1]
                while left:
                    # zeros may be written in any portions
                    sz, x = self.seg("a reserved byte")
                    if sz is None or sz.op != "int" or not 0 < sz.a[0] <= left:
                        if x.op == "app" and x.a[0].startswith(("be:", "le:")):
                            self.same(st, "a reserved byte", x.a[1], I(0))
                        raise Unclear()
                    if x.op == "app" and x.a[0].startswith(("be:", "le:")):
                        self.same(st, "a reserved byte", x.a[1], I(0))
                    elif x.op in ("fld", "sym"):
                        self.bad("C02", "a reserved byte is not written in its place: %s instead" % show(x)[:60])
                    left -= sz.a[0]
            elif k == "framesize":
                p = self.fieldv(st, self.fieldv(st, v, typ, "frame"), "TFrame", "payload")
                self.length(st, "the frame", 2, ladd(lib.lenof(self.E, st, p), I(16)))
            elif isinstance(k, int):
                f = self.fieldv(st, v, typ, it[1])
                x = self.num(st, it[1], k)
                self.code(st, it[1], x, f)
            else:
                f = self.fieldv(st, v, typ, it[1])
                if k == "raw":
                    self.same(st, it[1], self.bytes(st, it[1]), f)
                elif k == "str":
                    self.string(st, it[1], it[2], f)
                elif k == "opt":
                    o = self.variant_name(st, f, OPT)
                    t = self.fieldv(st, v, typ, "checksum_type")
                    n = self.variant_name(st, t, P + "ChecksumType")
                    if n == "None" or n is None and o == "None":
                        continue
                    if n is None:
                        d = st.facts.get(mk("discr", t, P + "ChecksumType"))
                        if d is None or d[0] != "!" or 0 not in d[1]:
                            raise Unclear()
                    self.same(st, it[1], self.num(st, it[1], it[2]), self.E.proj(st, self.E.proj(st, f, ("v", 1)), ("f", 0)))
                elif k == "headers":
                    n = lib.lenof(self.E, st, f)
                    if f.op == "map" and f.a[0].op == "emptymap":
                        # an example with so many headers, whose keys differ
                        x = self.segs[self.pos][1] if self.pos < len(self.segs) else UNIT
                        x = x.a[3].a[1] if lib.is_w(x) and x.a[3].op == "app" else n
                        n = I(len(f.a) - 1) if x is I(len(f.a) - 1) else n
                    self.length(st, "the list of headers", it[2], n)
                    if f.op == "map":
                        for a, b in f.a[1:]:
                            self.string(st, "a header's key", it[2], a)
                            self.string(st, "a header's value", it[2], b)
                    else:
                        while self.pos < len(self.segs):
                            # any key of the map, and the value that belongs to it
                            n = self.num(st, "length of a header's key", it[2])
                            key = self.bytes(st, "a header's key")
                            if key.op != "fld" or key.a[1] != ("f", 0):
                                raise Unclear()
                            self.pos -= 2
                            self.string(st, "a header's key", it[2], key)
                            self.string(st, "a header's value", it[2], mk("fld", key.a[0], ("f", 1)))
                            break
                elif k == "args":
                    if f.op != "seq":
                        raise Unclear()
                    for kk, o in f.a:
                        if is_adt(o, OPT) and o.a[1] == 1:
                            self.string(st, "an argument", it[2], o.a[2])
                        elif is_adt(o, OPT):
                            self.same(st, "length of an empty argument", self.num(st, "length of an empty argument", it[2]), I(0))

    def string(self, st, what, width, f):
        self.length(st, what, width, lib.lenof(self.E, st, f))
        self.same(st, what, self.bytes(st, what), f)

    def code(self, st, what, x, f):
        """number x stands for field f"""
        if f.op == "agg" and f.a[0][0] == "adt" and self.E.F.adts.get(f.a[0][1], {}).get("kind") == "enum":
            f = self.E.discr(st, f, T("adt", f.a[0][1]))
        while x.op == "app" and str(x.a[0]).startswith("cast:"):
            x = x.a[1]
        if x.op == "discr" and x.a[0] is f or x.op == "fld" and x.a[0] is f:
            return
        self.same(st, what, x, f)

    # ---- decoders
    def read(self, st, v):
        E = self.E
        src = mk("sym", "payload", 0)
        self.base, self.off = src, I(0)
        if self.typ == "TFrameId":
            ln = lib.lenof(E, st, src)
            size = mk("app", "get_u16", src, I(0))
            if is_adt(v, OPT) and v.a[1] == 0:
                # more bytes are waited for: the frame must be incomplete
                if self.possible(st, [ladd(ln, I(-16)), lsub(ln, size)]):
                    self.bad("C02", "a complete frame is not decoded")
                if E.load(st, (BUF, ())) is not src:
                    self.bad("C02", "bytes of an incomplete frame are consumed")
                self.seen("layouts read", "incomplete frame")
                return
            v = v.a[2] if is_adt(v, OPT) else v
            self.want(st, "id", self.fieldv(st, v, "TFrameId", "id"), 4, 4)
            f = self.fieldv(st, v, "TFrameId", "frame")
            self.want(st, "frame type", self.fieldv(st, f, "TFrame", "frame_type"), 1, 2)
            pl = self.fieldv(st, f, "TFrame", "payload")
            self.wantbuf(st, "payload", pl, I(16), ladd(size, I(-16)))
            self.off = size
        else:
            self.dec(st, v, self.typ)
        self.rest(st)
        self.seen("layouts read", self.typ)

    def possible(self, st, ineqs):
        s = st.copy()
        for d in ineqs:
            g = self.E.ge0(d)
            if g is TRUE:
                continue
            if g is FALSE:
                return False
            r = [x for x, t in self.E.fork_bool(s, g) if t]
            if not r:
                return False
            s = r[0]
        return True

    def left(self, st):
        """what remains to be read"""
        if self.off is I(0):
            return self.base
        return lib.mkbuf(self.base, self.off, lsub(lib.lenof(self.E, st, self.base), self.off))

    def rest(self, st):
        r = self.E.load(st, (BUF, ()))
        want = self.left(st)
        if r is want or widened(r) or widened(want):
            return
        b, o, n = lib.bufp(r)
        if b is not self.base and b.op in ("sym", "app") and not (r.op == "seq" and not r.a):
            self.bad("C02", "the decoder stops at another place than the layout ends")
        elif b is self.base and self.E.decide(st, self.E.cmp_eq(o, self.off)) == 0:
            self.bad("C02", "the decoder stops at another place than the layout ends")

    def num_at(self, width, off=None):
        return mk("app", "get_" + WIDTH[width], self.base, self.off if off is None else I(off))

    def want(self, st, what, v, width, off=None):
        E = self.E
        x = self.num_at(width, off)
        if widened(v) or widened(x):
            raise Unclear()
        if v.op == "agg" and v.a[0][0] == "adt":
            a = E.F.adts.get(v.a[0][1], {})
            if a.get("kind") == "enum":
                d = E.discr(st, v, T("adt", v.a[0][1]))
                if d.op == "int" and E.decide(st, E.cmp_eq(x, d)) != 1:
                    self.bad("C02", "%s is not decoded from its place: %s stands for another byte or more than one" % (what, show(v)[:40]))
                return
            if len(v.a) == 3:
                v = v.a[2]
        if v is x or v.op in ("discr", "sym"):
            return
        if v.op == "int" and E.decide(st, E.cmp_eq(x, v)) == 1:
            return
        if v.op == "app" and str(v.a[0]).startswith("bin:BitAnd") and x in v.a[1:]:
            self.bad("C02", "unknown bits of %s are dropped" % what)
        if v.op == "int" or v.op == "app" and str(v.a[0]).startswith(("get_", "le")) or v.op == "lin":
            self.bad("C02", "%s is not decoded from its place: %s instead of %s" % (what, show(v)[:60], show(x)[:60]))

    def wantbuf(self, st, what, v, off, ln):
        if widened(v) or widened(off) or widened(ln):
            raise Unclear()
        if v.op == "seq" and not v.a or v.op == "str" and not v.a[0]:
            if self.E.decide(st, self.E.cmp_eq(ln, I(0))) == 0:
                self.bad("C02", "%s is decoded as empty" % what)
            return
        if v is self.base:
            v = mk("buf", v, I(0), lib.lenof(self.E, st, v))
        if v.op != "buf":
            return
        if v.a[0] is not self.base or v.a[1] is not off and self.E.decide(st, self.E.cmp_eq(v.a[1], off)) != 1:
            self.bad("C02", "%s is decoded from another place" % what)
        if v.a[2] is not ln and self.E.decide(st, self.E.cmp_eq(v.a[2], ln)) != 1:
            self.bad("C02", "%s is decoded in another length" % what)

    def rstring(self, st, what, v, width):
        ln = self.num_at(width)
        self.wantbuf(st, what, v, ladd(self.off, I(width)), ln)
        self.off = ladd(ladd(self.off, I(width)), ln)

    def dec(self, st, v, typ):
        E = self.E
        for it in LAYOUT[typ]:
            k = it[0]
            f = self.fieldv(st, v, typ, it[1])
            if k == "in":
                if f.op == "app" and str(f.a[0]).startswith("decoded:"):
                    x = self.left(st)
                    if widened(x) or widened(f):
                        raise Unclear()
                    if f.a[0] != "decoded:" + it[2] or f.a[1] is not x:
                        self.bad("C02", "%s is not decoded from its place" % it[1])
                    self.base, self.off = mk("app", "rest_of:" + it[2], f.a[1]), I(0)
                else:
                    self.dec(st, f, it[2])
            elif isinstance(k, int):
                self.want(st, it[1], f, k)
                self.off = ladd(self.off, I(k))
            elif k == "str":
                self.rstring(st, it[1], f, it[2])
            elif k == "opt":
                n = self.variant_name(st, self.fieldv(st, v, typ, "checksum_type"), P + "ChecksumType")
                if n is None:
                    raise Unclear()
                if n == "None":
                    if is_adt(f, OPT) and f.a[1] == 1:
                        self.bad("C02", "a checksum is decoded where there is none")
                    continue
                if is_adt(f, OPT) and f.a[1] == 0:
                    self.bad("C02", "a checksum is not decoded")
                elif is_adt(f, OPT):
                    self.want(st, it[1], f.a[2], it[2])
                self.off = ladd(self.off, I(it[2]))
            elif k == "headers":
                n = self.num_at(it[2])
                self.off = ladd(self.off, I(it[2]))
                if f.op != "map" or f.a[0].op != "emptymap":
                    raise Unclear()
                if E.decide(st, E.cmp_eq(n, I(len(f.a) - 1))) == 0:
                    self.bad("C02", "another number of headers is decoded than there are")
                for a, b in f.a[1:]:
                    self.rstring(st, "a header's key", a, it[2])
                    self.rstring(st, "a header's value", b, it[2])
            elif k == "args":
                if f.op != "seq":
                    raise Unclear()
                for kk, o in f.a:
                    if kk != "e" or not is_adt(o, OPT):
                        raise Unclear()
                    if o.a[1] == 0:
                        if E.decide(st, E.cmp_eq(self.num_at(it[2]), I(0))) != 1:
                            self.bad("C02", "an argument is decoded as missing")
                        self.off = ladd(self.off, I(it[2]))
                    else:
                        self.rstring(st, "an argument", o.a[2], it[2])
                n = ladd(lib.lenof(E, st, self.base), lscale(self.off, -1))
                if not widened(n) and not widened(E.load(st, (BUF, ()))) and self.possible(st, [ladd(n, I(-1))]):
                    self.bad("C02", "bytes after the arguments are ignored")
            elif k == "raw":
                raise Unclear()


def sample(E, st, v, typ, n):
    """value of the named type with n headers or arguments of any content"""
    p = adt_path(E.F, typ)
    if p is None:
        return v
    out = []
    items = {it[1]: it for it in LAYOUT.get(typ, ()) if len(it) > 1}
    for i, (name, t) in enumerate(E.F.adts[p]["variants"][0][2]):
        f = E.proj(st, v, ("f", i))
        it = items.get(name, (0,))
        if it[0] == "in" and ":" not in it[2]:
            f = sample(E, st, f, it[2], n)
        elif it[0] == "headers":
            f = mk("map", lib.EMPTYMAP, *((mk("sym", "argkey", k), mk("sym", "argval", k)) for k in range(n)))
        elif it[0] == "args":
            f = mk("seq", *(("e", NONE if n == 3 and k == 1 else some(mk("sym", "argarg", k))) for k in range(n)))
        out.append(f)
    return adt(p, 0, *out)


class LayoutOf(Layout):
    def __init__(self, prop):
        Layout.__init__(self, prop, True, "?")


def layouts(F, root, rule, limit):
    """the layouts of all encoders (root impl:.../encode) or decoders"""
    E = roots.engine_for(F, [rule], dict(NUM, join_after=24, widen_after=12 if "encode" in root else 2, log=False, summaries=lib.codec_summaries(F)), max_time=limit)
    E.undecided = set()
    rule.encode = "encode" in root
    if rule.prop == "C02" and rule.encode:
        codes(E, F, rule)
    for p in roots.root_fns(F, root):
        b = F.bodies[p]
        if rule.encode:
            t = next((x for x in b.locals[1:b.argc + 1] if x[0] == "adt" and (x[1] or "").rsplit("::", 1)[-1] in LAYOUT), None)
            if t is None:
                continue
            i = next(k for k in range(b.argc) if b.locals[k + 1] is t or b.locals[k + 1] == t)
        else:
            t = next((x for x in walk_type(b.locals[0]) if x[0] == "adt" and (x[1] or "").rsplit("::", 1)[-1] in LAYOUT), None)
            if t is None:
                continue
        rule.typ = t[1].rsplit("::", 1)[-1]
        if rule.encode:
            for n in (None, 0, 1, 2, 3):
                if (n is None) == varied(rule.typ):
                    continue
                args = [mk("sym", "arg%d" % k, 0) for k in range(b.argc - 1)] + [mk("ref", DST, ())]
                st = roots.start(E, p, args, mem={DST: mk("seq")})
                if n is not None:
                    args[i] = sample(E, st, args[i], rule.typ, n)
                    st = roots.start(E, p, args, mem={DST: mk("seq")})
                rule.arg = args[i]
                E.run(p, st)
        else:
            E.opts["widen_after"] = 4 if any(it[0] == "args" for it in LAYOUT[rule.typ]) else 2
            E.run(p, from_buffer(E, p)[0])
        if rule.bytewise:
            rule.seen("not followed", p)
            rule.bytewise = False
            E.violations = {k: v for k, v in E.violations.items() if not v["message"].startswith(rule.typ + ":")}
        rule.seen("encoders" if rule.encode else "decoders", p)
    return E


def varied(typ):
    return any(it[0] in ("headers", "args") or it[0] == "in" and varied(it[2]) for it in LAYOUT[typ])


def walk_type(t):
    yield t
    for x in t[2] or ():
        if isinstance(x, tuple):
            for y in walk_type(x):
                yield y


def codes(E, F, rule):
    """values of enumerations and flags on the wire"""
    for name, want in CODES.items():
        ps = [p for p in F.adts if p.startswith("tchannel_rs::") and p.endswith("::" + name)]
        if len(ps) != 1:
            continue
        for v, d, fl in E.variants_of(ps[0]) or ():
            if v in want:
                rule.seen("wire values", (name, v))
                if d != want[v]:
                    E.violations.setdefault((rule.prop, "%s::%s" % (name, v)), dict(property=rule.prop, key="%s::%s" % (name, v), at=None, function=ps[0], call_path=[], trace=[], facts=[],
                                            message="%s::%s stands for %d on the wire instead of %d" % (name, v, d, want[v]), root=ps[0]))
