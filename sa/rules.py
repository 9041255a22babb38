"""The rules: one class per part of a property; each looks at the events of every explored path."""
from terms import *
from rule import *
import lib
from effects import calls_any

M = "tchannel_rs::"
HERR = M + "errors::HandlerError"


def has_reply_type(n):
    return n in ("CallResponse", "CallResponseContinue", "Error")


class Locks(Rule):
    """which guards are held, in order (used by several rules)"""
    name = "locks"

    def on_lock(self, st, kw, c):
        self.put(st, self.get(st) + ((kw["place"], kw["mode"], mk("m", kw["ty"])),))

    def on_unlock(self, st, kw, c):
        l = kw["lock"]
        p = l.a[1][:-1] if l.a[1] and l.a[1][-1] == ("inner",) else l.a[1]
        held = list(self.get(st))
        for i in range(len(held) - 1, -1, -1):
            r = held[i][0]
            if r.a[0] is l.a[0] and r.a[1] == p:
                del held[i]
                break
        else:
            if len(held) == 1 and (is_vague(l) or is_vague(held[0][0])):
                held = []
        self.put(st, tuple(held))


def locks_held(st):
    return st.mon.get("locks", ())


def same_place(a, b):
    return a is b


# ---------------------------------------------------------------- pending calls of a client (C01, C06)
class ClientPending(Rule):
    """entries a call registers, and the frames it sends and waits for"""
    name = "cpend"
    # state: ((map, key, chan), ...)  registered; (chan, ...) made here; loads not protected by a guard; opaque; ids registered before
    init_state = ((), (), (), 0, ())
    props = ("C01", "C06")

    def get(self, st):
        return Rule.get(self, st)[:4]

    def put(self, st, v):
        Rule.put(self, st, v if len(v) == 5 else v + (Rule.get(self, st)[4],))

    def on_channel(self, st, kw, c):
        e, ch, ld, f = self.get(st)
        self.put(st, (e, ch + (kw["chan"],), ld, f))

    def on_atomic_load(self, st, kw, c):
        if any(m == "w" for p, m, t in locks_held(st)):
            return
        e, ch, ld, f = self.get(st)
        self.put(st, (e, ch, (ld + (kw["value"],))[-4:], f))

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) != "pending":
            return
        self.seen("registrations", self.E.site(st, c))
        e, ch, ld, f = self.get(st)
        k = kw["key"]
        if not is_vague(k):
            why = self.not_unique(st, k, ld)
            if why and "C01" in self.props:
                self.prop = "C01"
                self.fail(st, "message id: " + why, "the id under which a call waits for its response is not unique among the calls of a connection: " + why, c)
        v = kw["val"]
        cv = lib.chan_of(v)
        old = Rule.get(self, st)[4]
        self.put(st, (e + ((kw["map"], k, cv),), ch, (), f, (old + (k,))[-3:] if k not in old else old))

    def not_unique(self, st, k, loads):
        if k.op == "int":
            return "constant"
        base = [x for x in syms_of(k)]
        if k.op == "sym":
            if k.a[0] == "atomic" and k in loads:
                return "read and advanced in separate steps"
            return None
        if k.op == "app" and (k.a[0].startswith(("bin:BitAnd", "bin:Rem", "bin:Shr", "bin:Div", "cast:u8", "cast:u16")) or k.a[0] in ("min", "max")) \
                and any(s.a[0] in ("ticket", "atomic") for s in base):
            return "several counter values give the same id"
        if k.op == "lin" and len(k.a[1]) == 1 and k.a[1][0][0].op == "sym" and k.a[1][0][0].a[0] == "atomic" and k.a[1][0][0] in loads:
            return "read and advanced in separate steps"
        return None

    def on_atomic_rmw(self, st, kw, c):
        if kw["op"] in ("fetch_add", "fetch_sub") and kw["by"] is I(0) and "C01" in self.props:
            e, ch, ld, f = self.get(st)
            self.put(st, (e, ch, (ld + (kw["value"],))[-4:], f))

    def on_map_remove(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) != "pending":
            return
        self.seen("removals", self.E.site(st, c))
        e, ch, ld, f = self.get(st)
        k, old = kw["key"], Rule.get(self, st)[4]
        if "C01" in self.props and not is_vague(k) and k not in old and not any(is_vague(x) for x in old) and not f and not st.imprecise and kw["hit"]:
            self.prop = "C01"
            self.fail(st, "entry of another call removed", "a call removes the entry of id %s from the table of pending calls, which is not its own: the response of another call is lost" % show(k)[:80], c)
        if is_vague(kw["key"]):
            e = ()
        else:
            e = tuple(x for x in e if not (x[1] is kw["key"]))
        self.put(st, (e, ch, ld, f))

    def on_map_clear(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            e, ch, ld, f = self.get(st)
            self.put(st, ((), ch, ld, f))

    on_map_retain = on_map_clear

    def on_opaque(self, st, kw, c):
        e, ch, ld, f = self.get(st)
        self.put(st, (e, ch, ld, 1))

    def on_send(self, st, kw, c):
        self.sent(st, kw, c)

    on_send_failed = on_send

    def sent(self, st, kw, c):
        if "C01" not in self.props:
            return
        v = kw["value"]
        if not self.is_frame(st, v):
            return
        i = self.frame_id(st, v)
        if i is None or is_vague(i):
            return
        self.seen("frames sent", self.E.site(st, c))
        e, ch, ld, f = self.get(st)
        if f or st.imprecise:
            return
        if not any(x[1] is i or is_vague(x[1]) for x in e):
            self.prop = "C01"
            self.fail(st, "request frame sent under an id that is not registered",
                      "a request frame leaves with an id under which no response is awaited (ids registered here: %s, sent: %s)" % ([show(x[1]) for x in e], show(i)), c)

    def on_recv_wait(self, st, kw, c):
        if "C01" not in self.props:
            return
        e, ch, ld, f = self.get(st)
        q = kw["chan"]
        if q not in ch or f or st.imprecise:
            return
        self.seen("waits for a response", self.E.site(st, c))
        if not any(x[2] is q for x in e) and not any(is_vague(x[2]) for x in e):
            self.prop = "C01"
            self.fail(st, "waiting for frames of a message that is not registered",
                      "the call waits for response frames although its id is no longer (or not yet) registered, so frames of its response cannot reach it", c)

    def on_exit(self, st, kw, c):
        if "C06" not in self.props:
            return
        e, ch, ld, f = self.get(st)
        self.seen("ends of calls", ("cancelled" if st.cancelled else "finished", show(kw["value"])[:40]))
        if f or st.imprecise:
            return
        for m, k, q in e:
            if is_vague(k):
                continue
            self.prop = "C06"
            self.fail(st, "pending entry left behind by a %s call" % ("cancelled" if st.cancelled else "finished"),
                      "the call ends (%s) with its id still in the table of pending calls" % ("dropped while waiting" if st.cancelled else show(kw["value"])[:80]), c)


# ---------------------------------------------------------------- dispatching by id (C01)
def table_key(chan):
    """key of the table entry a channel was taken from"""
    x = chan
    if x.op == "fld" and x.a[1] and x.a[1][0] == "k":
        return x.a[1][1]
    return None


class DispatchIds(Rule):
    """a frame read from the connection only goes to the channel registered under its own id"""
    name = "disp"
    weak = True
    prop = "C01"
    init_state = ((),)

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            self.put(st, ((self.get(st)[0] + ((kw["key"], lib.chan_of(kw["val"])),))[-3:],))

    def on_send(self, st, kw, c):
        k = table_key(kw["chan"])
        if k is None:
            for key, ch in self.get(st)[0]:
                if ch is kw["chan"]:
                    k = key
        i = self.frame_id(st, kw["value"])
        if i is None or is_vague(i) or is_vague(kw["value"]):
            return
        if k is None and not st.imprecise:
            self.any_entry(st, kw, i, c)
        if k is None or is_vague(k):
            return
        self.seen("frames dispatched", self.E.site(st, c))
        if i is not k and not (self.E.decide(st, mk("eq", i, k)) == 1):
            self.fail(st, "frame dispatched to the channel of another id", "frame with id %s handed to the call waiting under id %s" % (show(i)[:60], show(k)[:60]), c)

    on_send_failed = on_send

    def any_entry(self, st, kw, i, c):
        """a channel found by walking over the table"""
        if not (i.op == "fld" and i.a[0].op == "sym" and i.a[0].a[0] == "frame"):
            return
        walks = [x for x in subterms(kw["chan"]) if x.op == "app" and x.a[0] in WALKS]
        if not walks:
            return
        self.seen("frames dispatched", self.E.site(st, c))
        for f, v in st.facts.items():
            if contains(f, i) and any(contains(f, w) for w in walks):
                return
        self.fail(st, "frame dispatched to some channel", "a frame is handed to a channel found in the table without comparing its id with that of the frame", c)


class OwnTable(Rule):
    """every connection served has a table of incomplete requests of its own: ids of different clients are the same"""
    name = "own"
    prop = "C01"
    # objects with such a table that were there before the connection was accepted, accepted one?
    init_state = ((), 0)

    def on_io_accept(self, st, kw, c):
        self.seen("accepts", self.E.site(st, c))
        old = tuple(r for r, v in st.mem.items() if r.op == "sym" and r.a[0].startswith("heap:"))
        self.put(st, (old, 1))

    def spawned(self, child, parent):
        self.put(child, self.get(parent))

    def on_map_insert(self, st, kw, c):
        s = self.get(st)
        if not s[1] or map_kind(self.E, kw["vt"]) != "pending":
            return
        self.seen("registrations", self.E.site(st, c))
        at = kw["map"].a[0] if kw["map"].op == "ref" else None
        if at is not None and at in s[0]:
            self.fail(st, "connections share a table of incomplete requests", "the table a request is registered in was there before its connection was accepted: frames of different clients with the same id end up in one request", c)


class OwnTableClient(OwnTable):
    """every connection made has a table of pending calls of its own: each counts its ids from the start"""
    name = "ownc"
    init_state = ((), 0)

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) != "pending":
            return
        self.seen("registrations", self.E.site(st, c))
        at = kw["map"].a[0] if kw["map"].op == "ref" else None
        if at is not None and not st.imprecise and not (at.op in ("sym", "L") and (at.op == "L" or at.a[0].startswith("heap:"))):
            self.fail(st, "connections share a table of pending calls", "a new connection registers its calls in a table that was there before: connections number their calls alike, so a call meets the entry of another", c)


class Delivered(Rule):
    """every frame read is passed on, in order, when its id is in the table"""
    name = "deliv"
    prop = "C09"
    types = ("CallResponse", "CallResponseContinue")
    # frame read; passed on or not to be; depth of concurrent work; read by the task which spawned this one
    init_state = ((), 0, 0, 0)

    def is_it(self, st, v):
        s = self.get(st)
        if not s[0]:
            return False
        if v is s[0][0]:
            return True
        i = self.frame_id(st, v)
        return i is not None and i is self.frame_id(st, s[0][0])

    def done(self, st):
        s = self.get(st)
        if s[0]:
            self.put(st, (s[0], 1) + s[2:])

    def to_table(self, st, kw):
        return table_key(kw["chan"]) is not None

    def on_read(self, st, kw, c):
        self.put(st, ((kw["value"],), 0, 0, 0))

    def on_scope_enter(self, st, kw, c):
        s = self.get(st)
        l = kw["limit"]
        if is_adt(l, OPT) and l.a[1] == 1:
            l = l.a[2]
        if s[0] and not s[1] and not (l.op == "int" and l.a[0] == 1):
            self.put(st, s[:2] + (1,) + s[3:])

    def on_scope_exit(self, st, kw, c):
        s = self.get(st)
        self.put(st, s[:2] + (0,) + s[3:])

    def on_spawn(self, st, kw, c):
        s = self.get(st)
        if s[0] and not s[1]:
            self.put(st, (s[0], 1, s[2], 1))

    def spawned(self, child, parent):
        s = self.get(parent)
        self.put(child, s if s[3] else self.init_state)
        if s[3]:
            self.put(parent, s[:3] + (0,))

    def ordered(self, st, kw, c):
        s = self.get(st)
        if (s[2] or s[3]) and not st.imprecise and self.is_it(st, kw["value"]) and self.to_table(st, kw):
            self.fail(st, "frames passed on concurrently", "a frame is passed on by work running beside that for the next frames: they can overtake it when the channel of the message is full", c)

    on_send_wait = ordered

    def on_send(self, st, kw, c):
        if self.is_it(st, kw["value"]):
            self.ordered(st, kw, c)
            self.seen("frames passed on", self.E.site(st, c))
            self.done(st)

    def on_send_failed(self, st, kw, c):
        if self.is_it(st, kw["value"]) and not kw.get("full"):
            self.done(st)

    def on_map_get(self, st, kw, c):
        s = self.get(st)
        if s[0] and not kw["hit"] and map_kind(self.E, kw["vt"]) == "pending" and kw["key"] is self.frame_id(st, s[0][0]):
            self.done(st)

    def on_map_remove(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            self.done(st)

    def on_map_clear(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            self.done(st)

    on_map_retain = on_map_clear

    def on_read_wait(self, st, kw, c):
        s = self.get(st)
        if s[0] and not s[1] and not st.imprecise and not any(is_vague(x) for x in s[0]):
            t = [n for n in self.types if self.may_be(st, s[0][0], n)]
            if t:
                self.fail(st, "frame lost", "a frame (%s) is read and the next one awaited without the first being passed on to the message with its id" % ", ".join(t), c)
        self.put(st, self.init_state)


class DeliveredServer(Delivered):
    """every frame of a request is passed on, in order"""
    name = "delivs"
    types = ("CallRequest", "CallRequestContinue")


class DeliveredErrors(Delivered):
    """every error frame read is passed on to the call it is for"""
    name = "deliverr"
    prop = "C22"
    types = ("Error",)

    def ordered(self, st, kw, c):
        pass

    on_send_wait = ordered


class Slots(Rule):
    """a slot for requests is given back"""
    name = "slots"
    prop = "C04"
    init_state = (0,)

    def on_sem_acquire(self, st, kw, c):
        self.seen("slots taken", self.E.site(st, c))

    def on_sem_forget(self, st, kw, c):
        self.put(st, (1,))

    def on_sem_other(self, st, kw, c):
        if kw["fn"].endswith("add_permits"):
            self.put(st, (0,))

    def on_read_wait(self, st, kw, c):
        if self.get(st)[0] and not st.imprecise:
            self.fail(st, "slot for requests lost", "a request keeps its slot for ever: once all slots are lost no request of the connection is handled", c)

    on_exit = on_read_wait


WALKS = ("values", "values_mut", "itemrefs", "items", "into_values")


def is_item_id(i):
    """id of a frame received from a channel"""
    return i.op == "fld" and i.a[0].op == "sym" and i.a[0].a[0] == "item"


# ---------------------------------------------------------------- requests on a server connection (C01, C04, C05, C06)
class ServerRequest(Rule):
    """follows one request through the server: registration, frames received, replies"""
    name = "sreq"
    weak = True
    props = ("C01", "C04", "C05", "C06")
    KEEP = {"C01": (0, 1), "C04": (1, 3, 4, 5, 7, 8), "C05": (3, 6, 7), "C06": (0, 1, 3, 9)}

    def put(self, st, v):
        keep = {i for p in self.props for i in self.KEEP[p]}
        v = tuple(x if i in keep else self.init_state[i] for i, x in enumerate(v))
        if 0 not in keep and v[1]:
            v = (v[0], (TRUE,)) + v[2:]
        Rule.put(self, st, v)

    # regs ((key, chan),..), cur key, item, scope (0 none, 1 unlimited, 2 limited), replies (tuple of names), failed, permits, reads, over, channels of removed registrations
    init_state = ((), (), (), 0, (), 0, (), 0, 0, ())

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) != "pending":
            return
        s = list(self.get(st))
        s[0] = (s[0] + ((kw["key"], lib.chan_of(kw["val"])),))[-3:]
        self.put(st, tuple(s))
        self.seen("registrations", self.E.site(st, c))

    def on_map_remove(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) != "pending":
            return
        s = list(self.get(st))
        before = s[0]
        if is_vague(kw["key"]):
            s[0] = ()
        else:
            s[0] = tuple(x for x in s[0] if x[0] is not kw["key"])
            # ids of received frames are the ids they were dispatched by
            if s[1] and is_item_id(kw["key"]):
                s[0] = tuple(x for x in s[0] if x[0] is not s[1][0])
            s[9] = (s[9] + tuple(x[1] for x in before if x not in s[0]))[-2:]
        self.put(st, tuple(s))
        self.seen("removals", self.E.site(st, c))

    def on_map_clear(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            s = list(self.get(st))
            s[0] = ()
            self.put(st, tuple(s))

    on_map_retain = on_map_clear

    def spawned(self, child, parent):
        p = self.get(parent)
        s = list(self.init_state)
        if p[0] or p[7] == 2:
            s[0] = p[0]
            s[9] = p[9]
            s[3] = 3
            # the parent no longer answers for it
            q = list(p)
            q[0] = ()
            self.put(parent, tuple(q))
        self.put(child, tuple(s))

    def on_scope_enter(self, st, kw, c):
        s = list(self.get(st))
        l = kw["limit"]
        lim = 1
        if is_adt(l, OPT):
            if l.a[1] == 1:
                lim = 2
                l = l.a[2]
        elif not is_vague(l):
            lim = 2
        if lim == 2 and l.op == "int" and (l.a[0] == 0 or l.a[0] >= 2 ** 31):
            lim = 1
        s[1], s[2], s[3], s[4], s[5] = (), (), lim, (), 0
        self.put(st, tuple(s))
        self.seen("request tasks", self.E.site(st, c))

    def on_scope_exit(self, st, kw, c):
        s = list(self.get(st))
        self.finish(st, s, c)
        s[1], s[2], s[3], s[4] = (), (), 0, ()
        self.put(st, tuple(s))

    def finish(self, st, s, c):
        """the work on one request ends"""
        if st.cancelled or st.imprecise:
            return
        if s[1]:
            self.seen("requests followed to their end", (show(s[1][0])[:40], s[4], s[5]))
            if "C04" in self.props and not s[4] and not s[5]:
                self.prop = "C04"
                self.fail(st, "request ends without any reply", "work on a request ends without a response or an error frame having been sent for it", c)
            if "C06" in self.props:
                for k, ch in s[0]:
                    if k is s[1][0] and not is_vague(k):
                        self.prop = "C06"
                        self.fail(st, "entry of a finished request left behind", "work on a request ends with its id still in the table of incomplete requests", c)
                s[0] = tuple(x for x in s[0] if x[0] is not s[1][0])

    def on_recv_wait(self, st, kw, c):
        s = list(self.get(st))
        q = kw["chan"]
        own = [k for k, ch in s[0] if ch is q]
        if not own and q in s[9] and "C06" in self.props and not st.imprecise:
            self.prop = "C06"
            self.fail(st, "request deregistered before all its frames were read", "the request waits for frames although its id was removed from the table, so they cannot reach it", c)
            return
        if own or self.props[0] in ("C04", "C05"):
            if s[7] or s[3]:
                s[1] = (own[0],) if own else (TRUE,)
                self.put(st, tuple(s))
                self.wait(st, s, "frames of a request", c)
            elif own:
                s[1] = (own[0],)
                self.put(st, tuple(s))
        elif s[1] and "C06" in self.props and q.op == "sym" and str(q.a[0]).startswith("chan:") and not any(is_vague(ch) for k, ch in s[0]):
            self.prop = "C06"
            self.fail(st, "request deregistered before all its frames were read", "the request waits for more frames after its id was removed from the table, so they cannot reach it", c)

    def on_dyn_wait(self, st, kw, c):
        s = list(self.get(st))
        self.wait(st, s, "a message handler", c)

    def on_sem_wait(self, st, kw, c):
        self.wait(st, list(self.get(st)), "a free task slot", c)

    def on_sem_acquire(self, st, kw, c):
        s = list(self.get(st))
        s[6] = (s[6] + (mk("m", "permit"),))[-2:]
        self.put(st, tuple(s))

    def on_drop_permit(self, st, kw, c):
        s = list(self.get(st))
        s[6] = s[6][1:]
        self.put(st, tuple(s))

    def wait(self, st, s, what, c):
        if "C05" not in self.props or not s[7] and s[3] != 3:
            return
        self.seen("waits of the request path", (what, self.E.site(st, c)))
        self.prop = "C05"
        if s[3] == 0:
            self.fail(st, "frame reading waits for " + what, "the task which reads frames of a connection waits for %s before it reads the next frame" % what, c)
        if what.startswith("frames"):
            if s[3] == 2:
                self.fail(st, "incomplete requests occupy limited tasks", "the number of concurrently handled requests is limited where requests are still incomplete: reading stops once that many requests are incomplete", c)
            if s[6]:
                self.fail(st, "incomplete request holds a task permit", "a request waits for its remaining frames while it holds one of the limited permits", c)

    def on_read(self, st, kw, c):
        s = list(self.get(st))
        s[7] = min(2, s[7] + 1)
        self.put(st, tuple(s))

    def on_read_end(self, st, kw, c):
        s = list(self.get(st))
        s[8] = 1
        self.put(st, tuple(s))

    on_read_err = on_read_end

    def on_send(self, st, kw, c, failed=False):
        s = list(self.get(st))
        if table_key(kw["chan"]) is not None or any(ch is kw["chan"] for k, ch in s[0]):
            return
        v = kw["value"]
        i = self.frame_id(st, v)
        if i is None or v.op == "sym" and v.a[0] == "frame":
            return
        if s[1]:
            if not is_vague(i) and not is_vague(s[1][0]) and not st.imprecise and "C01" in self.props:
                self.seen("reply frames", self.E.site(st, c))
                k = s[1][0]
                if i is not k and not is_item_id(i):
                    self.prop = "C01"
                    self.fail(st, "reply sent under another id", "reply to the request with id %s is sent with id %s" % (show(k)[:50], show(i)[:60]), c)
            t = self.frame_type(st, v) or "frame"
            if not failed and "C04" in self.props:
                if t == "Error" and s[4] or s[4] == ("Error",):
                    self.prop = "C04"
                    self.fail(st, "error frame together with another reply", "a request is answered with an error frame and something else: %s" % ((s[4] + (t,)),), c)
                s[4] = ("Error",) if t == "Error" else ("response",)
        if failed:
            s[5] = 1
            s[8] = 1
        self.put(st, tuple(s))

    def on_send_failed(self, st, kw, c):
        # a full queue is no reason to leave a request unanswered
        if not kw.get("full"):
            self.on_send(st, kw, c, True)

    cuts = None

    def unbounded(self, st, v):
        """is the message of an error frame the text of any error, in full?"""
        if self.cuts is None:
            q = [i["items"].get("encode") for i in self.E.F.impls if (i["trait"] or "").endswith("payloads::Codec") and (i["self"][1] or "").endswith("::ErrorMsg")]
            self.cuts = not q or calls_any(self.E.F, q[0], ("take", "truncate", "get", "split_at", "chars", "char_indices", "floor_char_boundary", "is_char_boundary", "min"))
        if self.cuts or st.imprecise:
            return False
        p = [a for a in self.E.F.adts if a.endswith("payloads::ErrorMsg")]
        x = self.fld(st, v, p[0], "message") if len(p) == 1 else None
        while x is not None and x.op == "app" and x.a[0] in ("strcollect", "chars", "bytes"):
            x = x.a[1]
        return x is lib.ERRTEXT

    def on_encode_failed(self, st, kw, c):
        s = list(self.get(st))
        if kw["type"] == "ErrorMsg" and self.unbounded(st, kw["value"]):
            # this failure is up to the peer or a handler, whose texts may be too long for a frame
            self.seen("error messages of any length", self.E.site(st, c))
        else:
            s[5] = 1
            s[8] = 1
        self.put(st, tuple(s))

    def on_write_failed(self, st, kw, c):
        s = list(self.get(st))
        s[8] = 1
        self.put(st, tuple(s))

    on_flush_failed = on_write_failed

    def on_exit(self, st, kw, c):
        s = list(self.get(st))
        if st.cancelled or st.imprecise:
            return
        if s[3] == 3:
            self.finish(st, s, c)
        if "C04" in self.props and s[7] == 2:
            self.seen("ends of connections", (s[8],))
            if not s[8]:
                self.prop = "C04"
                self.fail(st, "a request ends the connection", "the task serving a connection ends although neither the client closed it nor sending to it failed: one request takes down all others", c)


# ---------------------------------------------------------------- lost connections (C07)
class LostClient(Rule):
    """a client connection whose reading ended"""
    name = "lost"
    prop = "C07"
    # flag stores, cleared under held guard, done, reads seen, over
    init_state = ((), 0, 0, 0, 0)

    def on_read_wait(self, st, kw, c):
        s = list(self.get(st))
        s[3] = 1
        self.put(st, tuple(s))

    def on_read_end(self, st, kw, c):
        s = list(self.get(st))
        s[4] = 1
        self.put(st, tuple(s))

    on_read_err = on_read_end

    def on_atomic_store(self, st, kw, c):
        if kw["value"] is TRUE:
            s = list(self.get(st))
            s[0] = ((mk("m", flag_name(kw["place"])),) + s[0])[:3]
            self.put(st, tuple(s))
            self.stores = getattr(self, "stores", set()) | {flag_name(kw["place"])}

    def on_map_clear(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            s = list(self.get(st))
            s[1] = 1
            self.put(st, tuple(s))

    def on_unlock(self, st, kw, c):
        s = list(self.get(st))
        l = kw["lock"]
        try:
            v = self.E.load(st, (l.a[0], l.a[1]))
        except Exception:
            v = None
        marked = bool(s[0])
        if v is not None:
            if ops_in(v, lambda x: x is EMPTYMAP_) or v is NONE:
                s[1] = 1
            if v is NONE or is_adt(v) and any(x is TRUE for x in v.a[2:]) or is_adt(v, OPT) and v.a[1] == 0:
                marked = True
        if s[1] and marked:
            s[2] = 1
        s[1] = 2 if s[1] else 0
        if s[1] == 2:
            s[1] = 0
            s[2] = s[2] or (2 if not marked else 1)
        self.put(st, tuple(s))

    def on_exit(self, st, kw, c):
        s = self.get(st)
        if not s[3] or st.cancelled or st.imprecise:
            return
        self.seen("ends of frame reading", (s[4],))
        if s[2] == 0:
            self.fail(st, "pending calls not failed when reading ends", "the task reading a connection ends and leaves the pending calls of the connection registered: they wait for ever", c)
        elif s[2] == 2:
            self.fail(st, "calls can still register after reading ended", "pending calls are dropped before (or without) marking the connection closed under the same guard: a call registering in between waits for ever", c)


EMPTYMAP_ = lib.EMPTYMAP


def flag_name(place):
    return str(place.a[1][-1]) if place.a[1] else "?"


class OwnSender(Rule):
    """whoever waits for the frames of a message does not keep the queue open itself: it is told of a lost connection by the end of its queue"""
    name = "ownsender"
    prop = "C07"
    init_state = ()     # (channel, senders of it that the analysed task holds; None: not known)

    def change(self, st, ch, d):
        s = []
        for k, n in self.get(st):
            if k is ch and n is not None:
                n = None if d is None or n + d < 0 or n + d > 5 else n + d
            s.append((k, n))
        self.put(st, tuple(s))

    def on_channel(self, st, kw, c):
        if self.of_frames(kw["chan"]):
            self.put(st, ((kw["chan"], 1),) + tuple(x for x in self.get(st) if x[0] is not kw["chan"])[:3])

    @staticmethod
    def of_frames(ch):
        return ch.op == "sym" and str(ch.a[0]).startswith("chan:" + FRAME)

    def on_clone_sender(self, st, kw, c):
        self.change(st, lib.chan_of(kw["v"]), 1)

    def on_drop_sender(self, st, kw, c):
        self.change(st, lib.chan_of(kw["v"]), -1)

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            self.change(st, lib.chan_of(kw["val"]), -1)

    def lost(self, st, v):
        """senders in v go where they are not followed"""
        for k, n in self.get(st):
            if n is not None and isinstance(v, N) and ops_in(v, lambda x: x is k):
                self.change(st, k, None)

    def on_spawn(self, st, kw, c):
        for k, n in self.get(st):
            self.change(st, k, None)

    def on_drop_arc(self, st, kw, c):
        for k, n in self.get(st):
            if any(ops_in(x, lambda y: y is k) for x in st.mem.values() if isinstance(x, N) and x.op == "arc"):
                self.change(st, k, None)
        self.lost(st, kw["v"])

    def on_opaque(self, st, kw, c):
        for x in (c.args if c is not None else ()):
            self.lost(st, x)
            if x.op == "ref":
                self.lost(st, self.E.rd(st, x))

    def on_recv_wait(self, st, kw, c):
        for k, n in self.get(st):
            if k is kw["chan"]:
                self.seen("waits for frames", self.E.site(st, c))
                if n and not st.imprecise and not kw.get("nowait"):
                    self.fail(st, "queue kept open", "frames of a message are awaited while the waiting side itself keeps the queue open: it never learns that the connection was lost", c)


class LostRegister(Rule):
    """registering a call checks, under the guard of the table, that the connection is not closed"""
    name = "lostreg"
    prop = "C07"
    # flag values read under a guard that is still held; none received
    init_state = ((), 0)

    def on_atomic_load(self, st, kw, c):
        s = self.get(st)
        if locks_held(st):
            self.put(st, ((s[0] + (kw["value"],))[-3:], s[1]))

    def on_unlock(self, st, kw, c):
        if not locks_held(st):
            self.put(st, ((), self.get(st)[1]))

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) != "pending":
            return
        s = self.get(st)
        self.seen("registrations", self.E.site(st, c))
        if any(self.E.decide(st, mk("eq", v, I(0))) == 1 or st.facts.get(v) == ("=", 0) or v is FALSE for v in s[0]):
            return
        # state kept inside of the lock
        for pl, mode, ty in locks_held(st):
            x = self.E.load(st, (pl.a[0], pl.a[1] + (("inner",),)))
            base = kw["base"]
            roots = syms_of(base) | syms_of(x)
            for f in st.facts:
                if f.op in ("has",):
                    continue
                if syms_of(f) & roots and not contains(f, kw["key"]):
                    return
        self.fail(st, "call registered without checking that the connection is open",
                  "a call is added to the table of pending calls without a check, under the guard of that table, that the connection was not closed: nobody will ever fail it", c)

    def on_recv_wait(self, st, kw, c):
        q = kw["chan"]
        if st.imprecise or not (q.op == "sym" and str(q.a[0]).startswith("chan:")):
            return
        self.seen("waits for frames", self.E.site(st, c))
        if any(holds_sender(v, q) for v in st.mem.values()):
            self.fail(st, "caller holds a sender of its own channel", "the call waits for frames while it holds a sender of the channel itself: dropping the registered sender when the connection is lost does not end the wait", c)

    def on_recv_none(self, st, kw, c):
        self.put(st, (self.get(st)[0], 1))

    def on_recv(self, st, kw, c):
        self.put(st, (self.get(st)[0], 0))

    def on_exit(self, st, kw, c):
        if not self.get(st)[1] or st.cancelled or st.imprecise:
            return
        self.seen("calls ended by a lost connection", show(kw["value"])[:50])
        v = result_of(kw["value"])
        if v is not None and v[0] == "Ok":
            self.fail(st, "lost connection reported as success", "the call returns %s although its connection ended before the response was complete" % show(kw["value"])[:80], c)


def holds_sender(v, q):
    """a sender of channel q is part of v, outside of the tables"""
    if not contains(v, q):
        return False
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen or x.op == "map":
            continue
        seen.add(x)
        if is_nat(x, "sender") and x.a[2] is q:
            return True
        todo.extend(kids(x))
    return False


def result_of(v):
    """(Ok|Err, content) of an exit value"""
    if is_adt(v, POLL):
        if v.a[1] != 0:
            return None
        v = v.a[2]
    if is_adt(v, RES):
        return ("Ok" if v.a[1] == 0 else "Err"), (v.a[2] if len(v.a) > 2 else UNIT)
    return None


class HasBroken(Rule):
    """a connection whose reading ended is reported as broken"""
    name = "broken"
    prop = "C07"
    init_state = ((), 0)

    def on_atomic_load(self, st, kw, c):
        s = self.get(st)
        self.put(st, (s[0] + (kw["value"],), s[1]))

    def on_opaque(self, st, kw, c):
        self.put(st, (self.get(st)[0], 1))

    on_lock = on_opaque

    def on_exit(self, st, kw, c):
        v = kw["value"]
        s = self.get(st)
        self.seen("verdicts", show(v)[:60])
        if s[1] or st.imprecise or v is TRUE or is_vague(v):
            return
        r = self.E.decide(st, v)
        if r == 1:
            return
        for x in s[0]:
            if self.E.decide(st, x) == 0 or contains(v, x):
                return
        self.fail(st, "closed connection not reported as broken", "a connection is reported usable without its closed mark being looked at (or although it is set)", c)


class ServerEnd(Rule):
    """a server connection whose client is gone releases incomplete requests"""
    name = "srvend"
    prop = "C07"
    init_state = (0, 0, 0)

    def on_read(self, st, kw, c):
        s = self.get(st)
        self.put(st, (min(2, s[0] + 1), s[1], s[2]))

    def on_read_end(self, st, kw, c):
        s = self.get(st)
        self.put(st, (s[0], 1, s[2]))

    def on_map_clear(self, st, kw, c):
        s = self.get(st)
        if s[1] and map_kind(self.E, kw["vt"]) == "pending":
            self.put(st, (s[0], s[1], 1))

    def on_unlock(self, st, kw, c):
        s = self.get(st)
        if s[1]:
            l = kw["lock"]
            v = self.E.load(st, (l.a[0], l.a[1]))
            if ops_in(v, lambda x: x is EMPTYMAP_):
                self.put(st, (s[0], s[1], 1))

    def on_exit(self, st, kw, c):
        s = self.get(st)
        if st.cancelled or st.imprecise or s[0] < 2 or not s[1]:
            return
        self.seen("connections closed by the client", (s[2],))
        if not s[2]:
            self.fail(st, "incomplete requests kept when the client is gone", "after the client closed the connection the table of incomplete requests is never emptied: their tasks wait for ever", c)


class SenderStops(Rule):
    """a task writing frames stops at the first failure"""
    name = "sndstop"
    prop = "C07"
    init_state = (0,)

    def on_write_failed(self, st, kw, c):
        self.put(st, (1,))

    on_flush_failed = on_write_failed

    def on_recv_wait(self, st, kw, c):
        if self.get(st)[0]:
            self.fail(st, "writer continues after a failed write", "after writing to the connection failed the writing task takes more frames: calls keep being accepted on a dead connection", c)

    def on_write(self, st, kw, c):
        self.seen("writes", self.E.site(st, c))
        if self.get(st)[0]:
            self.fail(st, "writer continues after a failed write", "after writing to the connection failed the writing task goes on writing later frames", c)

    def on_exit(self, st, kw, c):
        if self.get(st)[0]:
            self.seen("ends after failed write", self.E.rootname)


# ---------------------------------------------------------------- complete messages only (C08)
CALLS = ("CallResponse", "CallRequest", "CallContinue")


class Complete(Rule):
    """a message is only delivered when its last frame said so"""
    name = "compl"
    prop = "C08"
    # last item, its decoded value, no more frames will come, wrapped item?
    init_state = ((), (), 0)

    def on_recv(self, st, kw, c):
        self.put(st, ((kw["value"],), (), 0))

    def on_recv_none(self, st, kw, c):
        s = self.get(st)
        self.put(st, (s[0], s[1], 1))

    def on_decode(self, st, kw, c):
        s = self.get(st)
        t = kw["type"]
        if s[0] and t in CALLS and contains(kw["src"], s[0][0]):
            self.put(st, (s[0], (mk("app", "decoded:" + t, kw["src"]),), s[2]))

    def compact(self, st):
        s = self.get(st)
        if s[1] and isinstance(s[1][0], N):
            if is_vague(s[1][0]):
                self.put(st, ((), ("vague",), s[2]))
                return
            m = more_flag(self, st, s[1][0])
            if m in (0, 1):
                self.put(st, ((), (m,), s[2]))

    def deliver(self, st, what, c):
        self.compact(st)
        s = self.get(st)
        if st.cancelled or st.imprecise:
            return
        if s[2]:
            self.fail(st, what + " after the frames ended early", "a message is delivered although its connection ended before its last frame", c)
            return
        if not s[0] and not s[1]:
            return
        if s[0] and is_vague(s[0][0]) or s[1] == ("vague",):
            self.seen("deliveries not followed", self.E.site(st, c))
            return
        self.seen("deliveries", (what, self.E.site(st, c)))
        if not s[1]:
            self.fail(st, what + " without reading the last frame", "a message is delivered although the frame received last was not read", c)
            return
        m = s[1][0] if not isinstance(s[1][0], N) else more_flag(self, st, s[1][0])
        if m == 1:
            self.fail(st, what + " although more fragments follow", "a message is delivered although the last frame received says that more fragments follow", c)
        elif m == "unread":
            self.fail(st, what + " without checking whether more fragments follow", "a message is delivered without a look at the flag telling whether more fragments follow", c)

    def on_dyncall(self, st, kw, c):
        if kw["trait"].endswith("MessageArgsHandler") or "Handler" in kw["trait"]:
            self.deliver(st, "request", c)

    def on_exit(self, st, kw, c):
        r = result_of(kw["value"])
        if r is None or self.get(st) == self.init_state:
            return
        if r[0] == "Ok" and not is_unit(r[1]):
            self.deliver(st, "response", c)
        elif r[0] == "Err" and is_adt(r[1], HERR):
            n = self.E.variants_of(HERR)[r[1].a[1]][0]
            if n == "MessageError":
                self.deliver(st, "error response", c)


def is_unit(v):
    return v is UNIT


def flags_bits(self, st, d):
    """the flags byte of a decoded call frame"""
    nm = d.a[0].split(":", 1)[1]
    a = next((p for p in self.E.F.adts if p.endswith("payloads::" + nm)), None)
    f = self.fld(st, d, a, "flags")
    if f is None:
        return None
    t = next((p for p in self.E.F.adts if p.endswith("payloads::Flags")), None)
    if t and len(self.E.F.adts[t]["variants"][0][2]) == 1:
        return self.E.proj(st, f, ("f", 0))
    return f


def masked(k, b):
    """mask m when k is b & m"""
    m = -1
    while k is not b:
        if not (k.op == "app" and k.a[0].startswith("bin:BitAnd") and k.a[2].op == "int"):
            return None
        m &= k.a[2].a[0]
        k = k.a[1]
    return m


def more_flag(self, st, d, bit=1):
    """1/0: the flag of the decoded frame is known to be set/unset; unread: nothing is known; None: cannot tell"""
    b = flags_bits(self, st, d)
    if b is None:
        return None
    rel = False
    for k, v in st.facts.items():
        if not contains(k, b):
            continue
        n = None
        if k.op == "eq" and k.a[1].op == "int" and v[0] == "=":
            n = k.a[1].a[0]
            v = ("=", n) if v[1] else ("!", (n,))
            k = k.a[0]
        m = masked(k, b)
        if m is None:
            rel = True
            continue
        if not m & bit:
            continue
        if v[0] == "=":
            return 1 if v[1] & bit else 0
        left = [x for x in range(256) if not x & ~(m & 255) and x not in v[1]]
        if left and all(x & bit for x in left):
            return 1
        if left and not any(x & bit for x in left):
            return 0
    return None if rel else "unread"


# ---------------------------------------------------------------- response codes (C11)
class ClientOutcome(Rule):
    """what a call returns follows the code of the response"""
    name = "outc"
    weak = True
    prop = "C11"
    init_state = ((), ())

    def key(self, st):
        return tuple(() if isinstance(x, tuple) and x and isinstance(x[0], N) else x for x in self.get(st))

    def on_decode(self, st, kw, c):
        if kw["type"] == "CallResponse":
            self.put(st, ((mk("app", "decoded:CallResponse", kw["src"]),), ()))

    def code(self, st, d):
        f = self.fld(st, d, M + "frames::payloads::CallResponse", "fields")
        code = self.fld(st, f, M + "frames::payloads::CallResponseFields", "code") if f is not None else None
        rc = next((p for p in self.E.F.adts if p.endswith("::ResponseCode")), None)
        return code, rc

    def compact(self, st):
        s = self.get(st)
        if s[0] and isinstance(s[0][0], N):
            if s[0][0] is UNINIT:
                # not known and no longer reachable: nothing can look at it any more
                self.put(st, (("unread",), s[1]))
                return
            code, rc = self.code(st, s[0][0])
            if code is None or is_vague(code):
                self.put(st, (("vague",), s[1]))
                return
            n = self.variant_name(st, code, rc)
            if n is not None:
                self.put(st, ((n,), s[1]))

    def on_exit(self, st, kw, c):
        self.compact(st)
        s = self.get(st)
        r = result_of(kw["value"])
        if st.cancelled or st.imprecise or r is None:
            return
        kind = None
        if r[0] == "Ok":
            kind = "Ok"
        elif is_adt(r[1], HERR) and self.E.variants_of(HERR)[r[1].a[1]][0] == "MessageError":
            kind = "Error"
        if kind is None:
            return
        if not s[0]:
            self.fail(st, "outcome without response", "a call returns a response message although no response was received", c)
            return
        d = s[0][0]
        if d == "unread":
            self.seen("outcomes", (kind, d))
            self.fail(st, "response code not looked at", "a response message is returned as %s without a look at its response code" % kind, c)
            return
        if d == "vague":
            return
        if isinstance(d, N):
            code, rc = self.code(st, d)
            n = None
        else:
            n = d
        self.seen("outcomes", (kind, n))
        if n is None:
            if st.facts.get(mk("discr", code, rc)) is None and not any(contains(k, code) for k in st.facts):
                self.fail(st, "response code not looked at", "a response message is returned as %s without a look at its response code" % kind, c)
        elif n != kind:
            self.fail(st, "code %s returned as %s" % (n, kind), "a response with code %s is returned to the caller as %s" % (n, "success" if kind == "Ok" else "error message"), c)


# ---------------------------------------------------------------- outcome of handlers (C11, server side)
class ServerOutcome(Rule):
    """the response made for a request carries the code and the arguments its handler returned"""
    name = "sout"
    prop = "C11"
    weak = True
    init_state = ((),)

    def on_dyn_done(self, st, kw, c):
        self.put(st, ((kw["value"],),))

    def on_scope_enter(self, st, kw, c):
        self.put(st, ((),))

    def on_pure_call(self, st, kw, c):
        s = self.get(st)
        fr = next((x for x in kw["args"] if is_adt(x) and "ResponseFragmenter" in x.a[0][1]), None)
        if fr is None or st.imprecise:
            return
        if not s[0]:
            return
        v = s[0][0]
        if is_vague(v):
            return
        okv = self.E.proj(st, v, ("v", 0))
        okv = self.E.proj(st, okv, ("f", 0))
        code = self.E.proj(st, okv, ("f", 0))
        args = self.E.proj(st, okv, ("f", 1))
        got = [x for x in subterms(fr)]
        self.seen("responses", self.E.site(st, c))
        rc = next((p for p in self.E.F.adts if p.endswith("::ResponseCode")), None)
        if code not in got:
            # known code of the handler written out as a constant
            n = self.variant_name(st, code, rc)
            k = [self.E.variants_of(rc)[x.a[1]][0] for x in got if is_adt(x, rc)]
            if k and n is not None and k[0] == n:
                pass
            elif k:
                self.fail(st, "response code not the one the handler returned", "the response is sent with code %s whatever code the handler's outcome had" % k[0], c)
        if args not in got and not any(contains(x, args) for x in got) and not any(is_vague(x) for x in got):
            self.fail(st, "response arguments not those of the handler", "the response is made from other arguments than the handler returned", c)


def subterms(v):
    seen = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(kids(x))
    return seen


class ServerCode(ServerOutcome):
    """the code written into a response is the one the handler returned"""
    name = "scode"

    def on_pure_call(self, st, kw, c):
        for v in kw["args"]:
            if is_adt(v) and v.a[0][1].endswith("::CallResponseFields"):
                self.look(st, v, c)

    def on_encode(self, st, kw, c):
        if kw["type"] == "CallResponseFields":
            self.look(st, kw["value"], c)

    def look(self, st, v, c):
        s = self.get(st)
        if not s[0] or st.imprecise or is_vague(s[0][0]) or not is_adt(v):
            return
        okv = self.E.proj(st, self.E.proj(st, s[0][0], ("v", 0)), ("f", 0))
        want = self.E.proj(st, okv, ("f", 0))
        got = self.fld(st, v, v.a[0][1], "code")
        if got is None or is_vague(got):
            return
        self.seen("response codes", self.E.site(st, c))
        if got is want or contains(got, want):
            return
        rc = next((p for p in self.E.F.adts if p.endswith("::ResponseCode")), None)
        n, k = self.variant_name(st, want, rc), self.variant_name(st, got, rc)
        if k is None or n != k:
            self.fail(st, "response code not the one the handler returned", "the response is encoded with code %s whatever code the handler's outcome had" % (k or show(got)[:60]), c)


def converted(v, m):
    """v was made by converting message m"""
    return ops_in(v, lambda x: x.op == "app" and x.a[0].startswith("conv:") and m in x.a[1:])


class AdapterOutcome(Rule):
    """an adapter turns a handler's result into the matching response code and arguments"""
    name = "adapt"
    prop = "C11"
    init_state = ((), 0)

    def on_dyncall(self, st, kw, c):
        if "Handler" in kw["trait"]:
            self.seen("handler calls", self.E.site(st, c))
            self.put(st, ((), 1))

    def on_exit(self, st, kw, c):
        r = result_of(kw["value"])
        if r is None or st.cancelled or st.imprecise:
            return
        s = self.get(st)
        if not s[1]:
            if r[0] == "Ok":
                self.fail(st, "success without calling the handler", "a request is answered although its handler was not called", c)
            return
        hs = {x for t in list(st.facts) + [r[1]] for x in syms_of(t) if str(x.a[0]).startswith(("dyn:", "dynout:"))}
        if len(hs) != 1:
            v = r[1]
            if r[0] == "Ok" and not hs and v.op == "agg" and len(v.a) > 3 and not is_vague(v.a[3]) and any(str(x.a[0]).startswith("arg") for x in syms_of(v.a[3])):
                self.fail(st, "response not made from the handler's message", "the arguments of a response are not those of the message the handler returned: %s" % show(v.a[3])[:100], c)
            return
        h = hs.pop()
        out = self.variant_name(st, h, RES)
        if out is None and st.facts.get(mk("discr", h, RES)) is not None:
            return
        he = self.E.proj(st, self.E.proj(st, h, ("v", 1)), ("f", 0))
        hev = self.variant_name(st, he, HERR) if out == "Err" else None
        failed = any(str(x.a[0]).startswith("converr") for x in syms_of(r[1]))
        self.seen("outcomes", (self.E.rootname, out, hev, r[0]))
        if r[0] == "Err":
            if failed:
                return
            if out == "Ok":
                self.fail(st, "success of a handler turned into an error", "a handler's successful result is answered as a failure", c)
            elif hev == "MessageError":
                self.fail(st, "error message of a handler dropped", "a handler's error message is answered with an error that does not carry it", c)
            return
        resp = r[1]
        if resp.op != "agg" or len(resp.a) < 4:
            return
        code, args = resp.a[2], resp.a[3]
        rc = next((p for p in self.E.F.adts if p.endswith("::ResponseCode")), None)
        n = self.variant_name(st, code, rc)
        if out is None:
            self.fail(st, "outcome of the handler not looked at", "a response is made without a look at whether the handler succeeded", c)
            return
        want = "Ok" if out == "Ok" else "Error"
        if n is not None and n != want:
            self.fail(st, "handler's %s marked %s" % (hev or out, n), "a handler's %s is answered with response code %s" % ("success" if out == "Ok" else "error message", n), c)
        if out == "Err" and hev != "MessageError":
            self.fail(st, "failure without a message answered by a response", "a handler's %s, which carries no message, is answered with a response instead of an error frame" % (hev or "error"), c)
            return
        m = self.E.proj(st, self.E.proj(st, h, ("v", 0)), ("f", 0)) if out == "Ok" else self.E.proj(st, self.E.proj(st, he, ("v", 2)), ("f", 0))
        if not is_vague(args) and not converted(args, m):
            self.fail(st, "response not made from the handler's message", "the arguments of a response are not those of the message the handler returned: %s" % show(args)[:100], c)


# ---------------------------------------------------------------- handshake (C12)
def find_app(v, name):
    out = [x for x in subterms(v) if x.op == "app" and x.a[0] == name]
    return out[0] if out else None


class ServerHandshake(Rule):
    """a server reads requests only after a version 2 handshake"""
    name = "shs"
    prop = "C12"
    # first frame, its decoded init, done
    init_state = ((), (), 0)

    def on_read(self, st, kw, c):
        s = self.get(st)
        if s[2]:
            return
        if s[0]:
            self.fail(st, "frames read before the handshake", "the server reads further frames of a connection before it accepted the init request", c)
            self.put(st, ((), (), 1))
            return
        self.put(st, ((kw["value"],), (), 0))

    def on_decode(self, st, kw, c):
        s = self.get(st)
        if s[0] and not s[2] and kw["type"] == "Init" and contains(kw["src"], s[0][0]):
            self.put(st, (s[0], (mk("app", "decoded:Init", kw["src"]),), 0))

    def on_write(self, st, kw, c):
        s = self.get(st)
        v = kw["value"]
        if s[2] or not s[0] or not self.is_frame(st, v):
            return
        t = self.frame_type(st, v)
        f = s[0][0]
        if t == "InitResponse":
            self.seen("handshakes accepted", self.E.site(st, c))
            n = self.frame_type(st, f)
            if n != "InitRequest":
                self.fail(st, "handshake accepted without an init request", "the server answers the first frame of a connection with an init response although its type is %s" % (n or "not checked"), c)
            if not s[1]:
                self.fail(st, "handshake accepted without reading the request", "the server accepts a handshake without decoding the init request", c)
            else:
                ver = self.fld(st, s[1][0], M + "frames::payloads::Init", "version")
                r = None if ver is None else self.E.decide(st, mk("eq", ver, I(2)))
                if ver is not None and r != 1:
                    self.fail(st, "handshake accepted for another version", "the server accepts a handshake without having established that the client speaks version 2", c)
            i, j = self.frame_id(st, v), self.frame_id(st, f)
            if not is_vague(i) and i is not j:
                self.fail(st, "init response under another id", "the init response is sent with id %s and not that of the request" % show(i)[:60], c)
            enc = find_app(v, "encoded:Init")
            if enc is not None and is_adt(enc.a[1]):
                ver = self.fld(st, enc.a[1], M + "frames::payloads::Init", "version")
                if ver is not None and ver.op == "int" and ver.a[0] != 2:
                    self.fail(st, "init response announces another version", "the init response announces version %s" % ver.a[0], c)
            self.put(st, ((), (), 1))

    def early(self, st, what, c):
        s = self.get(st)
        if s[2] or not s[0]:
            return
        self.fail(st, what + " before the handshake", "on a connection whose handshake was not completed: " + what, c)

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) == "pending":
            self.seen("requests", self.E.site(st, c))
            self.early(st, "request accepted", c)

    def on_dyncall(self, st, kw, c):
        self.early(st, "handler called", c)


class ClientHandshake(Rule):
    """a client uses a connection only after a version 2 handshake"""
    name = "chs"
    prop = "C12"
    init_state = (0, (), ())

    def on_send(self, st, kw, c):
        s = self.get(st)
        v = kw["value"]
        if not self.is_frame(st, v) or s[0]:
            return
        t = self.frame_type(st, v)
        self.seen("first frames", (t,))
        if t is not None and t != "InitRequest":
            self.fail(st, "first frame is no init request", "the first frame a client sends on a new connection is %s" % t, c)
        enc = find_app(v, "encoded:Init")
        if enc is not None and is_adt(enc.a[1]):
            ver = self.fld(st, enc.a[1], M + "frames::payloads::Init", "version")
            if ver is not None and ver.op == "int" and ver.a[0] != 2:
                self.fail(st, "init request announces another version", "the init request announces version %s" % ver.a[0], c)
        self.put(st, (1, s[1], s[2]))

    def on_recv(self, st, kw, c):
        s = self.get(st)
        if not s[1]:
            self.put(st, (s[0], (kw["value"],), s[2]))

    def on_decode(self, st, kw, c):
        s = self.get(st)
        if kw["type"] == "Init" and s[1] and contains(kw["src"], s[1][0]):
            self.put(st, (s[0], s[1], (mk("app", "decoded:Init", kw["src"]),)))

    def on_exit(self, st, kw, c):
        s = self.get(st)
        r = result_of(kw["value"])
        if r is None or r[0] != "Ok" or st.cancelled or st.imprecise:
            return
        self.seen("connections accepted", self.E.rootname)
        if not s[0] or not s[1]:
            self.fail(st, "connection used without a handshake", "a new connection is handed out although no init request was sent and answered", c)
            return
        n = self.frame_type(st, s[1][0])
        if n != "InitResponse":
            self.fail(st, "connection used although the handshake was not accepted", "a new connection is handed out although the answer to the init request is %s" % (n or "of unchecked type"), c)
            return
        if not s[2]:
            self.fail(st, "connection used without reading the init response", "a new connection is handed out without decoding the init response", c)
            return
        ver = self.fld(st, s[2][0], M + "frames::payloads::Init", "version")
        if ver is not None and self.E.decide(st, mk("eq", ver, I(2))) != 1:
            self.fail(st, "connection used although the peer speaks another version", "a new connection is handed out without having established that the peer speaks version 2", c)


# ---------------------------------------------------------------- addresses (C24)
LOSSY = ("ip", "ty:u16:port", "set_ip", "set_port")


def addresses(v):
    """items of resolved addresses in v, and whether v tells one of them from every other"""
    found, whole, half = [], False, set()

    def w(x, under):
        nonlocal whole
        if x.op == "fld" and x.a[0].op == "app" and x.a[0].a[0] == "addrs":
            if x not in found:
                found.append(x)
            if under:
                half.add(under)
            else:
                whole = True
            return
        u = x.a[0] if x.op == "app" and x.a[0] in LOSSY else under
        for y in x.a:
            if isinstance(y, N):
                w(y, u)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, N):
                        w(z, u)
    w(v, None)
    return found, whole or {"ip", "ty:u16:port"} <= half


class Address(Rule):
    """a call goes over a connection to the address it names"""
    name = "address"
    prop = "C24"
    init_state = ()     # (pool, address) built on the way

    def manager_addr(self, st, v):
        v = self.deep(st, v)
        a = self.E.F.adts.get(v.a[0][1]) if is_adt(v) else None
        fs = [i for i, (n, t) in enumerate(a["variants"][0][2]) if tshow(t).endswith("SocketAddr")] if a else []
        return self.E.proj(st, v, ("f", fs[0])) if len(fs) == 1 else None

    def on_pool_build(self, st, kw, c):
        x = self.manager_addr(st, kw["manager"])
        if x is None:
            self.seen("not followed", self.E.site(st, c))
            return
        self.put(st, self.get(st) + ((kw["value"], x),))
        self.named(st, x, "a pool of connections to another address", "connections of a call are made to %s, not the address the call names", c)

    def named(self, st, x, key, msg, c):
        """x is the address of the call"""
        f, whole = addresses(x)
        if is_vague(x) and not (f and not whole):
            self.seen("not followed", self.E.site(st, c))
            return
        if not f or not whole:
            self.fail(st, key, msg % show(x)[:80], c)
        else:
            self.seen("addresses", (self.E.site(st, c), show(x)[:60]))

    def pool_of(self, st, v):
        return self.deep(st, v)

    def on_map_insert(self, st, kw, c):
        if map_kind(self.E, kw["vt"]) != "pools":
            return
        v = self.pool_of(st, kw["val"])
        for p, a in self.get(st):
            if p is v or contains(v, p):
                self.named(st, kw["key"], "pool kept for another address", "a pool is kept under %s, which does not tell its address from others", c)

    def on_pool_get(self, st, kw, c):
        v = self.pool_of(st, kw["pool"])
        self.seen("connections taken", self.E.site(st, c))
        if any(p is v for p, a in self.get(st)):
            return      # looked at when it was made
        if v.op == "fld" and isinstance(v.a[1], tuple) and v.a[1][0] == "k":
            self.named(st, v.a[1][1], "connection to another address", "a call uses the pool kept under %s, which may be one of another address", c)
            return
        its = [x for x in subterms(v) if x.op == "fld" and isinstance(x.a[1], tuple) and x.a[1][0] == "i" and not addresses(x)[0]]
        if its and not is_vague(v) and not any(contains(k, x) for k in st.facts for x in its):
            self.fail(st, "connection to any address", "a call uses some pool of those kept, whatever its address", c)
        else:
            self.seen("not followed", self.E.site(st, c))

    def on_io_connect(self, st, kw, c):
        """a pool connects to the address it was made for"""
        x = kw["args"][0]
        own = [s for s in syms_of(x) if s.a[0] == "arg0"]
        self.seen("connections made", self.E.site(st, c))
        if not own and not is_vague(x):
            self.fail(st, "connected elsewhere", "a pool connects to %s and not to its own address" % show(x)[:60], c)
        elif own and any(y.op == "app" and y.a[0] in LOSSY for y in subterms(x)) and x.op == "app" and x.a[0] in ("set_ip", "set_port"):
            self.fail(st, "connected elsewhere", "a pool connects to %s and not to its own address" % show(x)[:60], c)


# ---------------------------------------------------------------- tables (C13)
class Tables(Rule):
    """nothing registered is silently replaced"""
    name = "tab"
    prop = "C13"
    track = False
    # replaced entries not put back; inserted, removed (counts up to 1); looked up value; inserted value
    # key and table of an entry taken out
    init_state = ((), 0, 0, (), (), ())

    def on_map_insert(self, st, kw, c):
        k = map_kind(self.E, kw["vt"])
        if k == "other":
            return
        self.seen("insertions into " + k, self.E.site(st, c))
        s = list(self.get(st))
        if s[5] and s[5][0] is kw["key"]:
            s[5] = ()
        if any(x[0] is kw["key"] and x[1] is kw["val"] for x in s[0]):
            s[0] = tuple(x for x in s[0] if not (x[0] is kw["key"]))
        elif kw["replaced"]:
            s[0] = s[0] + ((kw["key"], kw["old"] if kw["old"] is not None else UNIT, mk("m", k)),)
            if not any(m == "w" for p, m, t in locks_held(st)):
                self.replaced(st, c)
        elif not kw["replaced"] and self.track:
            s[1] = 1
            s[4] = (kw["val"],)
        self.put(st, tuple(s))

    def replaced(self, st, c):
        for x in self.get(st)[0]:
            k = x[2].a[0]
            self.fail(st, "entry of table %s replaced" % k, {
                "pending": "a message can be registered under an id that is still in use, taking the frames of the other",
                "handlers": "registering a handler can silently replace the handler registered before",
                "subchannels": "creating a subchannel can silently replace an existing one (and its handlers)",
                "pools": "creating a pool can silently replace the existing pool of an address"}.get(k, "an entry is replaced"), c)

    def on_unlock(self, st, kw, c):
        s = self.get(st)
        if s[5] and not st.imprecise:
            k = s[5][1].a[0]
            self.fail(st, "entries of table %s dropped" % k, "an entry of the table of %s is dropped: asking for the same name again gives another one" % k, c)
        if s[5]:
            s = s[:5] + ((),)
            self.put(st, s)
        if s[0] and kw["mode"].a[0] == "w" if isinstance(kw["mode"], N) else s[0]:
            self.replaced(st, c)
            self.put(st, ((),) + s[1:])

    def on_map_remove(self, st, kw, c):
        k = map_kind(self.E, kw["vt"])
        if k in ("handlers", "subchannels", "pools"):
            self.seen("removals from " + k, self.E.site(st, c))
            s = list(self.get(st))
            if kw["hit"] and self.track:
                s[2] = 1
            self.put(st, tuple(s))
            if kw["hit"] and k != "handlers":
                self.put(st, self.get(st)[:5] + ((kw["key"], mk("m", k)),))

    def on_map_clear(self, st, kw, c):
        k = map_kind(self.E, kw["vt"])
        if k in ("handlers", "subchannels", "pools"):
            self.fail(st, "entries of table %s dropped" % k, "entries of the table of %s are dropped: asking for the same name again gives another one" % k, c)

    on_map_retain = on_map_clear

    def on_map_get(self, st, kw, c):
        if self.track and kw["hit"] and map_kind(self.E, kw["vt"]) in ("subchannels", "pools"):
            s = list(self.get(st))
            s[3] = (kw["val"],) if kw["val"] is not None else ()
            self.put(st, tuple(s))


class RegisterOutcome(Tables):
    """registering reports success exactly when the handler was added"""
    name = "regout"
    track = True
    verb = "register"

    def on_exit(self, st, kw, c):
        s = self.get(st)
        r = result_of(kw["value"])
        if r is None or st.cancelled or st.imprecise or is_vague(kw["value"]) and r[0] == "Ok":
            return
        self.seen("outcomes", (self.E.rootname, r[0], s[1], s[2]))
        done = s[1] if self.verb == "register" else s[2]
        if r[0] == "Ok" and not done:
            self.fail(st, self.verb + " reports success without effect", "%s returns success although the handler was not %sed" % (self.verb, self.verb), c)
        if r[0] == "Err" and done:
            self.fail(st, self.verb + " reports failure although it had effect", "%s returns an error although the handler was %sed" % (self.verb, self.verb), c)


class UnregisterOutcome(RegisterOutcome):
    name = "unregout"
    verb = "unregister"


class GetOrCreate(Tables):
    """getting a subchannel returns the one in the table"""
    name = "goc"
    track = True

    def on_exit(self, st, kw, c):
        s = self.get(st)
        r = result_of(kw["value"])
        if r is None or r[0] != "Ok" or st.cancelled or st.imprecise or is_vague(r[1]):
            return
        self.seen("results", show(r[1])[:60])
        v = r[1]
        if s[4] and v is s[4][0]:
            return
        if s[3] and v is s[3][0]:
            return
        if any(x.op == "fld" and isinstance(x.a[1], tuple) and x.a[1][0] in ("i", "k") for x in subterms(v)):
            return      # out of a table: which one is for C16 and C24 to tell
        if s[3] or s[4]:
            self.fail(st, "result is not the one in the table", "the value returned is not the one kept in the table: handlers registered on it are never found", c)
        else:
            self.fail(st, "result is not kept in the table", "a new value is returned that was never added to the table: handlers registered on it are never found", c)


# ---------------------------------------------------------------- server lifecycle (C14)
class Lifecycle(Rule):
    """start, stop"""
    name = "life"
    prop = "C14"
    what = "start"
    # spawns, aborts, old handle known, place
    # whether the task of the old handle was found ended (1) or running (2); whether other state was asked
    init_state = (0, 0, (), (), 0, 0)

    def on_task_ended(self, st, kw, c):
        s = list(self.get(st))
        s[4] = 1
        self.put(st, tuple(s))

    def on_task_runs(self, st, kw, c):
        s = list(self.get(st))
        s[4] = 2
        self.put(st, tuple(s))

    def on_atomic_load(self, st, kw, c):
        s = list(self.get(st))
        s[5] = 1
        self.put(st, tuple(s))

    def on_lock(self, st, kw, c):
        if "JoinHandle" in kw["ty"]:
            s = list(self.get(st))
            s[2] = (kw["content"],)
            s[3] = (kw["place"],)
            self.put(st, tuple(s))

    def on_spawn(self, st, kw, c):
        s = list(self.get(st))
        s[0] = min(2, s[0] + 1)
        self.put(st, tuple(s))

    def on_abort(self, st, kw, c):
        s = list(self.get(st))
        s[1] = 1
        self.put(st, tuple(s))

    def spawned(self, child, parent):
        self.put(child, self.init_state)

    def on_unlock(self, st, kw, c):
        s = list(self.get(st))
        if not s[2] or self.E.rootname.startswith("task:"):
            return
        l = kw["lock"]
        new = self.E.load(st, (l.a[0], l.a[1]))
        old = s[2][0]
        d = None
        if not is_vague(new):
            if is_adt(new, OPT):
                d = new.a[1]
            else:
                f = st.facts.get(mk("discr", new, OPT))
                d = f[1] if f is not None and f[0] == "=" else None
        f = st.facts.get(mk("discr", old, OPT))
        o = f[1] if f is not None and f[0] == "=" else None
        s[2] = (("before", o), ("after", d))
        self.put(st, tuple(s))

    def on_exit(self, st, kw, c):
        if self.E.rootname.startswith("task:") or st.imprecise:
            return
        s = self.get(st)
        if not s[2] or not isinstance(s[2][0], tuple):
            return
        o, d = s[2][0][1], s[2][1][1]
        r = result_of(kw["value"])
        res = r[0] if r else "Ok"
        self.seen("outcomes", (self.E.rootname, o, d, s[0], s[1], res) + ((s[4],) if s[4] else ()))
        if self.what == "start":
            if o == 1 and s[4] == 1:
                if res == "Err":
                    self.fail(st, "server cannot be started again", "starting is refused although the server started before has ended, e.g. for it could not bind its address", c)
                o = 0
            elif o == 1 and not s[4] and not s[5] and res == "Err":
                self.fail(st, "ended server taken for a running one", "starting is refused because a server was started before, without a look whether it still runs, e.g. could bind its address", c)
            if o == 1 and s[0]:
                self.fail(st, "second server started", "starting a server that already runs spawns a second one", c)
            if o == 1 and res == "Ok":
                self.fail(st, "starting a running server reports success", "starting a server that already runs is reported as success", c)
            if o == 0 and res == "Ok" and (not s[0] or d == 0):
                self.fail(st, "start reports success without a server", "starting a server reports success but no server task is started and kept", c)
            if o == 0 and res == "Err":
                self.fail(st, "server cannot be started", "starting a server that does not run is refused", c)
            if o is None and s[0]:
                self.fail(st, "server started without a look at the running one", "a server is started without checking whether one runs already", c)
        else:
            if o == 1 and not s[1]:
                self.fail(st, "stop leaves the server running", "shutting down does not stop the running server task", c)
            if o == 1 and d == 1:
                self.fail(st, "server cannot be started again", "after shutting down the channel still counts its server as running", c)
            if o is None and not s[1]:
                self.fail(st, "stop leaves the server running", "shutting down does not stop the server task", c)


class Stop(Lifecycle):
    name = "lifestop"
    what = "stop"


class AcceptLoop(Rule):
    """the accepting task goes on and hands every connection to a task of its own"""
    name = "accept"
    prop = "C14"
    # bound, bind failed, accepted and not yet handed on, failed?
    init_state = (0, 0, 0)

    def on_io_bind(self, st, kw, c):
        self.put(st, (1, 0, 0))

    def on_io_bind_failed(self, st, kw, c):
        self.put(st, (0, 1, 0))

    def on_io_accept(self, st, kw, c):
        s = self.get(st)
        self.seen("accepts", self.E.site(st, c))
        if s[2]:
            self.fail(st, "connection accepted and dropped", "a connection is accepted and the next one awaited without the first being served", c)
        self.put(st, (s[0], s[1], 1))

    def on_io_accept_failed(self, st, kw, c):
        s = self.get(st)
        if s[2]:
            self.fail(st, "connection accepted and dropped", "a connection is accepted and the next one awaited without the first being served", c)

    def on_spawn(self, st, kw, c):
        s = self.get(st)
        if s[2]:
            self.seen("connections handed on", self.E.site(st, c))
        self.put(st, (s[0], s[1], 0))

    def on_read_wait(self, st, kw, c):
        s = self.get(st)
        if s[2]:
            self.fail(st, "connection served by the accepting task", "an accepted connection is served by the accepting task itself: no other client is accepted meanwhile", c)

    def spawned(self, child, parent):
        self.put(child, self.init_state)

    def on_exit(self, st, kw, c):
        s = self.get(st)
        if st.imprecise or st.cancelled:
            return
        if s[1]:
            self.seen("ends", "bind failed")
        if s[0]:
            self.fail(st, "accepting ends", "the task accepting connections ends although listening succeeded: no further client is served", c)


class Served(Rule):
    """the task of an accepted connection serves it at once"""
    name = "served"
    prop = "C14"
    # in a task of an accepted connection which read nothing so far
    init_state = (0,)

    def on_io_accept(self, st, kw, c):
        self.put(st, (1,))

    def spawned(self, child, parent):
        self.put(child, self.get(parent))
        self.put(parent, (0,))

    def on_read_wait(self, st, kw, c):
        if self.get(st)[0]:
            self.seen("connections served", self.E.site(st, c))
        self.put(st, (0,))

    def on_sem_wait(self, st, kw, c):
        if self.get(st)[0] and not st.imprecise:
            self.fail(st, "accepted connection waits to be served", "an accepted connection is not read before others end: clients beyond that number are accepted and never served", c)


# ---------------------------------------------------------------- routing (C16)
class Routing(Rule):
    """the handler called is the one registered for the service and endpoint of the request"""
    name = "route"
    prop = "C16"
    weak = True
    # decoded request, last lookups: subchannel hit, handler hit
    init_state = ((), 0, 0)

    def key(self, st):
        s = self.get(st)
        return (bool(s[0]),) + s[1:]

    def on_scope_enter(self, st, kw, c):
        self.put(st, self.init_state)

    def on_decode(self, st, kw, c):
        if kw["type"] == "CallRequest":
            self.put(st, ((mk("app", "decoded:CallRequest", kw["src"]),), 0, 0))

    def arg_index(self, key):
        """(kind, index) of the argument a key was read from"""
        x = key
        idx = None
        for y in subterms(x):
            if y.op == "fld" and y.a[1] and y.a[1][0] == "i":
                idx = y.a[1][1]
        return idx

    def on_map_get(self, st, kw, c):
        k = map_kind(self.E, kw["vt"])
        if k not in ("subchannels", "handlers"):
            return
        s = list(self.get(st))
        key = kw["key"]
        d = s[0][0] if s[0] else None
        if d is not None and not is_vague(d):
            f = self.fld(st, d, M + "frames::payloads::CallRequest", "fields")
            svc = self.fld(st, f, M + "frames::payloads::CallRequestFields", "service")
            if k == "subchannels":
                self.seen("service lookups", (self.E.site(st, c), show(key)[:60]))
                if key.op == "app" and key.a[0].startswith("text:"):
                    self.fail(st, "service name changed before the lookup", "the subchannel is looked up under a changed service name (%s)" % key.a[0][5:], c)
                elif key is svc or is_vague(key):
                    pass
                elif key.op == "str":
                    self.fail(st, "service looked up under a fixed name", "the subchannel is looked up under %s whatever service the request names" % show(key), c)
                elif contains(key, svc):
                    self.fail(st, "service name changed before the lookup", "the subchannel is not looked up under the exact service name of the request: %s" % show(key)[:100], c)
                elif contains(key, d):
                    self.fail(st, "subchannel looked up under something else", "the subchannel is looked up under another part of the request than its service name: %s" % show(key)[:100], c)
            else:
                self.seen("endpoint lookups", (self.E.site(st, c), show(key)[:60]))
                if s[2] == 2 and key.op == "str" and not st.imprecise:
                    self.fail(st, "another handler answers", "when no handler is registered under the endpoint of the request the one registered under %s is looked up" % show(key), c)
                elif key.op == "app" and key.a[0].startswith("text:"):
                    self.fail(st, "endpoint name changed before the lookup", "the handler is looked up under a changed endpoint name (%s)" % key.a[0][5:], c)
                elif is_vague(key):
                    pass
                elif contains(key, svc):
                    self.fail(st, "handler looked up by service name", "the handler is looked up under the service name instead of the first argument", c)
                else:
                    i = self.arg_index(key)
                    if i is not None and isinstance(i, int) and i != 0:
                        self.fail(st, "handler looked up by another argument", "the handler is looked up under argument %s of the request instead of the first" % (i + 1), c)
                    elif key.op == "str" and key.a[0]:
                        self.fail(st, "handler looked up under a fixed name", "the handler is looked up under %s whatever endpoint the request names" % show(key), c)
        if k == "subchannels":
            s[1] = 1 if kw["hit"] else 2
        else:
            s[2] = 1 if kw["hit"] else 2
        self.put(st, tuple(s))

    def on_dyncall(self, st, kw, c):
        if "Handler" not in kw["trait"] or st.imprecise:
            return
        s = self.get(st)
        self.seen("handler calls", (self.E.site(st, c), s[1], s[2]))
        if s[2] == 2:
            self.fail(st, "handler called although none is registered", "a handler is called although the lookup of the endpoint found none", c)
        if s[1] == 2:
            self.fail(st, "handler called although the service is unknown", "a handler is called although the lookup of the service found none", c)


class RegisterKey(Rule):
    """a handler is registered, and a subchannel created, under exactly the name given"""
    name = "regkey"
    prop = "C16"

    def look(self, st, kw, c):
        k = map_kind(self.E, kw["vt"])
        if k not in ("handlers", "subchannels"):
            return
        key = kw["key"]
        self.seen("names of " + k, (self.E.rootname, self.E.site(st, c)))
        if (is_vague(key) or key.op == "sym") and not (key.op == "app" and key.a[0].startswith("text:")):
            return
        self.fail(st, "name of %s changed" % k, "%s: the table of %s is not accessed under the exact name given but under %s" % (self.E.rootname.rsplit("::", 1)[-1], k, show(key)[:80]), c)

    on_map_insert = on_map_get = on_map_remove = on_map_contains = look


class RequestService(Rule):
    """a call names the service of the subchannel it is made on"""
    name = "reqsvc"
    prop = "C16"

    def on_pure_call(self, st, kw, c):
        for v in kw["args"]:
            if is_adt(v) and v.a[0][1].endswith("::CallRequestFields"):
                self.look(st, v, c)

    def on_encode(self, st, kw, c):
        if kw["type"] == "CallRequestFields" and is_adt(kw["value"]):
            self.look(st, kw["value"], c)

    def look(self, st, v, c):
        x = self.fld(st, v, v.a[0][1], "service")
        if x is None or is_vague(x) or st.imprecise:
            return
        self.seen("services of requests", (self.E.site(st, c), show(x)[:60]))
        if field_of(self.E, x) == (M + "subchannel::SubChannel", "service_name"):
            return
        if x.op == "str" or x.op == "app" or field_of(self.E, x) is not None:
            self.fail(st, "request names another service", "a call is sent for service %s and not for exactly the service of its subchannel" % show(x)[:80], c)


# ---------------------------------------------------------------- configuration (C17)
def same_value(k, f, v, option):
    """does the fact tell that the option has the value v (a limit of zero may stand for none, a size of zero for one)"""
    if is_adt(v, OPT):
        return v.a[1] == 0 and k.op == "discr" and option(k.a[0]) and f == ("=", 0)
    if v.op == "int" and v.a[0] >= 1 << 31 and any(option(x) for x in subterms(k)):
        return True     # the largest value there is, after a comparison with the option
    if v.op != "int" or f[0] != "=":
        return False
    if k.op == "eq" and k.a[1].op == "int" and f[1] == 1:
        n, k = k.a[1].a[0], k.a[0]
    else:
        n = f[1]
    return option(k) and (n == v.a[0] or n == 0 and (v.a[0] == 1 or v.a[0] >= 1 << 31))


def changed(v, option):
    """how a value made from an option differs from it, or None"""
    if option(v) or v.op in ("int", "str"):
        return None
    if v.op == "app":
        n = str(v.a[0]).rsplit("::", 1)[-1].rsplit(":", 1)[-1]
        args = [x for x in v.a[1:] if isinstance(x, N)]
        k = [x.a[0] for x in args if x.op == "int"]
        if n == "min" and k:
            return None if k[0] >= 1 << 31 else "the lesser of %d and a part" % k[0]
        if n == "max" and k:
            return None if k[0] <= 1 else "the greater of %d and a part" % k[0]
        if n in ("sockaddr", "set_port", "set_ip") and any(not syms_of(x) for x in args):
            return "only a part"
        if k and (n in ("clamp", "pow", "rem", "div") or n.startswith(("saturating", "wrapping", "checked", "Mul", "Div", "Rem", "Shl", "Shr"))):
            return "the result of %s" % n
    if v.op == "lin":
        return "a sum or multiple"
    if v.op == "agg":
        parts = [x for x in v.a[2:] if isinstance(x, N)]
        if v.a[0][0] in ("tuple", "tup") and any(not syms_of(x) for x in parts):
            return "only a part"
    for x in kids(v):
        n = changed(x, option)
        if n:
            return n
    return None


class ConfigKept(Rule):
    """a channel keeps the configuration it is given"""
    name = "configkept"
    prop = "C17"

    def on_exit(self, st, kw, c):
        r = result_of(kw["value"])
        if r is None or r[0] != "Ok" or st.imprecise:
            return
        given = mk("sym", "arg0", 0)
        fields = self.E.F.adts[M + "config::Config"]["variants"][0][2]
        seen, todo = set(), [r[1]]
        while todo:
            v = self.deep(st, todo.pop())
            if v in seen or len(seen) > 200:
                continue
            seen.add(v)
            if v is given:
                self.seen("configurations kept")
            elif is_adt(v, M + "config::Config") or v.op == "with" and contains(v, given):
                self.seen("configurations kept")
                for i, (n, t) in enumerate(fields):
                    x = self.E.proj(st, v, ("f", i))
                    if x is not self.E.proj(st, given, ("f", i)) and not is_vague(x):
                        self.fail(st, "option %s replaced" % n, "a channel is made with another %s than configured" % n, c)
            elif v.op == "agg":
                todo += [x for x in v.a[2:] if isinstance(x, N)]
                a = self.E.F.adts.get(v.a[0][1]) if v.a[0][0] == "adt" else None
                for (n, t), x in zip(a["variants"][v.a[1]][2] if a else (), v.a[2:]):
                    x = self.deep(st, x)
                    if re.match(r"([\w:]*(Arc|Box)<)?%sconfig::Config\b" % M, tshow(t)) and x.op in ("app", "str", "int") and not contains(x, given) and not is_vague(x):
                        self.fail(st, "another configuration", "a channel keeps %s as configuration in %s instead of the one given" % (show(x)[:60], n), c)


class ConfigUse(Rule):
    """options of the configuration reach what they configure"""
    name = "config"
    prop = "C17"

    def check(self, st, what, v, field, c, key=None):
        """v must be (made from) the configuration field"""
        if v is None or is_vague(v):
            return
        self.seen(what, (self.E.site(st, c), show(v)[:60]))
        # a connection manager holds a copy of the option under some name of its own
        opts = [n for n, _ in self.E.F.adts[M + "config::Config"]["variants"][0][2]]

        def option(x):
            f = field_of(self.E, x)
            return f[1] if f and (f[0] == M + "config::Config" or f[1] in opts) else None
        if v.op in ("int", "str") or v is NONE or is_adt(v, OPT) and not syms_of(v):
            # right where the option is known to have this value
            if not any(same_value(k, f, v, lambda x: option(x) == field) for k, f in st.facts.items()):
                self.fail(st, what + " fixed", "%s is %s and not taken from the configured %s" % (what, show(v), field), c)
            return
        fs = {option(x) for x in subterms(v)} - {None}
        if fs and field not in fs:
            self.fail(st, what + " taken from another option", "%s is taken from option %s instead of %s" % (what, sorted(fs)[0], field), c)
        elif fs:
            n = changed(v, option)
            if n:
                self.fail(st, what + " not as configured", "%s is not the configured %s itself but %s of it" % (what, field, n), c)

    def on_pool_build(self, st, kw, c):
        cfg = kw["cfg"]
        given = {}
        for x in cfg.a[2:]:
            if x.op == "agg" and len(x.a) > 3 and x.a[2].op == "str":
                given[x.a[2].a[0]] = x.a[3]
        for opt, field in (("max_size", "max_connections"), ("max_lifetime", "lifetime"), ("test_on_check_out", "test_connection")):
            if opt not in given:
                self.fail(st, "pool option %s not set" % opt, "connection pools are built without the configured %s" % field, c)
            else:
                self.check(st, "pool option " + opt, given[opt], field, c)
        mg = kw.get("manager")
        mg = self.deep(st, mg) if mg is not None else None
        if mg is not None and is_adt(mg):
            a = self.E.F.adts.get(mg.a[0][1])
            for i, (n, t) in enumerate(a["variants"][0][2]):
                if n == "frame_buffer_size":
                    self.check(st, "frame buffer size of connections", self.E.proj(st, mg, ("f", i)), "frame_buffer_size", c)
        self.seen("pools", self.E.site(st, c))

    on_pool_build_failed = lambda self, st, kw, c: None

    def on_io_bind(self, st, kw, c):
        for a in kw["args"]:
            self.check(st, "listening address", a, "server_address", c)

    def on_semaphore(self, st, kw, c):
        v = kw["n"]
        self.check(st, "limit of request tasks", v, "server_tasks", c)

    def on_channel(self, st, kw, c):
        if kw["fn"].endswith("unbounded_channel"):
            self.fail(st, "unbounded frame channel", "a channel of frames is made without the configured bound", c)
            return
        if "TFrameId" in str(kw["chan"].a[0]):
            self.check(st, "capacity of a frame channel", kw["cap"], "frame_buffer_size", c)


# ---------------------------------------------------------------- locks (C18)
GUARDED = ("pending", "handlers", "subchannels", "pools")
WAITS = ("recv_wait", "send_wait", "sem_wait", "dyn_wait", "pool_get_wait", "read_wait", "join_wait")


def lock_label(place, ty):
    """name of a lock: what it protects"""
    t = re.sub(r"<.*", "", ty).rsplit("::", 1)[-1]
    if "Sender" in ty and "TFrameId" in ty:
        return "pending"
    if "MessageArgsHandler" in ty:
        return "handlers" if "HashMap" in ty else "handler"
    if "bb8" in ty:
        return "pools"
    if "SubChannel" in ty:
        return "subchannels"
    if "Framed" in ty:
        return "writer"
    if "JoinHandle" in ty:
        return "server handle"
    return ty[:60]


class LockOrder(Rule):
    """locks are not taken twice, not in opposite orders, and the tables are not held over waits"""
    name = "lockorder"
    prop = "C18"
    uses_locks = True

    def __init__(self, prop=None):
        Rule.__init__(self, prop)
        self.edges = {}

    def on_lock_wait(self, st, kw, c):
        held = locks_held(st)
        p = kw["place"]
        self.seen("lock acquisitions", self.E.site(st, c))
        if lock_label(p, kw["ty"]) == "handler":
            # held by whoever runs the handler, for as long as it runs
            for q, m, ty in held:
                l = lock_label(q, ty.a[0])
                if l in GUARDED:
                    self.fail(st, "%s held over a wait: handler" % l, "the lock of the table of %s is held while waiting for a handler to end: everything else needing the table waits too" % l, c)
        for q, m, ty in held:
            if is_vague(q) or is_vague(p):
                continue
            if q.a[0] is p.a[0] and q.a[1] == p.a[1]:
                if m == "w" or kw["mode"] == "w":
                    self.fail(st, "lock taken while held: " + lock_label(q, ty.a[0]), "the lock of %s is requested while the same task already holds it: it waits for itself" % lock_label(q, ty.a[0]), c)
                else:
                    self.fail(st, "read lock taken twice: " + lock_label(q, ty.a[0]), "the read lock of %s is requested while the same task already holds it: with a writer waiting in between both wait for ever" % lock_label(q, ty.a[0]), c)

    def on_lock(self, st, kw, c):
        held = locks_held(st)
        # this event comes before or after the one of Locks; leave out the new guard itself
        new = lock_label(kw["place"], kw["ty"])
        for q, m, ty in held:
            if q is kw["place"]:
                continue
            a = lock_label(q, ty.a[0])
            if a != new:
                self.edges.setdefault((a, new), (self.E.site(st, c), self.E.site_line(st, c)))
                self.seen("nested acquisitions", (a, new))
                if (new, a) in self.edges:
                    self.fail(st, "opposite lock order: %s" % "/".join(sorted((a, new))), "the locks of %s and %s are taken in both orders (%s and %s)" % (a, new, self.edges[(new, a)][0], self.E.site(st, c)), c)

    def on_any(self, st, kind, kw, c):
        if kind in WAITS and not kw.get("nowait"):
            held = locks_held(st)
            self.seen("waits", (kind, self.E.site(st, c)))
            for q, m, ty in held:
                l = lock_label(q, ty.a[0])
                if l in GUARDED:
                    self.fail(st, "%s held over a wait: %s" % (l, kind), "the lock of the table of %s is held while waiting (%s): everything else needing the table waits too" % (l, kind.replace("_wait", "")), c)


# ---------------------------------------------------------------- frame order (C19)
class Writer(Rule):
    """the writing task writes every frame it takes, in order, unchanged, and flushes"""
    name = "writer"
    prop = "C19"
    weak = True
    # items taken and not yet written (None: more than two, no longer told apart); written and not flushed; failed
    init_state = ((), 0, 0)

    def mine(self, st, kw):
        return self.E.role == "writer"

    def prune(self, st, syms):
        Rule.prune(self, st, syms)
        s = self.get(st)
        if s[0] and UNINIT in s[0]:
            self.put(st, (None,) + s[1:])

    def on_recv(self, st, kw, c):
        if not self.mine(st, kw):
            return
        s = self.get(st)
        q = s[0]
        q = None if q is None or len(q) >= 2 else q + (kw["value"],)
        self.put(st, (q, s[1], s[2]))

    def on_write(self, st, kw, c):
        s = list(self.get(st))
        if not self.mine(st, kw):
            return
        self.seen("writes", self.E.site(st, c))
        v = kw["value"]
        if s[0]:
            if v is s[0][0]:
                s[0] = s[0][1:]
            elif v in s[0]:
                self.fail(st, "frames written out of order", "a frame is written before one that was queued earlier", c)
                s[0] = tuple(x for x in s[0] if x is not v)
            elif not is_vague(v) and self.is_frame(st, v):
                self.fail(st, "frame changed before it is written", "another frame is written than the one queued", c)
                s[0] = None
            else:
                s[0] = None
        elif s[0] == () and not is_vague(v) and not st.imprecise and is_item_id(self.frame_id(st, v) or UNINIT):
            self.fail(st, "frame written twice", "a frame is written that was written before or never queued", c)
        s[1] = 0 if kw["how"] == "send" else 1
        self.put(st, tuple(s))

    def on_write_failed(self, st, kw, c):
        self.put(st, ((), 0, 1))

    on_flush_failed = on_write_failed

    def on_flush(self, st, kw, c):
        s = self.get(st)
        self.put(st, (s[0], 0, s[2]))

    def on_recv_wait(self, st, kw, c):
        s = self.get(st)
        if kw.get("nowait") or st.imprecise or not self.mine(st, kw):
            return
        self.seen("waits for frames", self.E.site(st, c))
        if s[1]:
            self.fail(st, "frames not flushed", "frames were handed to the writer without a flush before waiting for the next: they stay in its buffer", c)
        if s[0] and not s[2]:
            self.fail(st, "frame lost", "a frame was taken from the queue and the next one awaited without the first being written", c)
        self.put(st, ((), 0, s[2]))

    def on_recv_none(self, st, kw, c):
        s = self.get(st)
        if not self.mine(st, kw) or st.imprecise or kw.get("nowait"):
            return
        if s[0] and not s[2]:
            self.fail(st, "last frame lost", "the queue ended and frames taken from it were not written", c)


# ---------------------------------------------------------------- pings (C21)
class PingServer(Rule):
    """a ping is answered under its id before the next frame is read"""
    name = "ping"
    prop = "C21"
    weak = False
    init_state = ((), 0)

    def on_read(self, st, kw, c):
        self.put(st, ((kw["value"],), 0))

    def on_send(self, st, kw, c):
        s = self.get(st)
        v = kw["value"]
        if not s[0] or not self.is_frame(st, v):
            return
        t = self.frame_type(st, v)
        if t == "PingResponse":
            self.seen("ping responses", self.E.site(st, c))
            i, j = self.frame_id(st, v), self.frame_id(st, s[0][0])
            if not is_vague(i) and i is not j and not st.imprecise:
                self.fail(st, "ping answered under another id", "a ping response is sent with id %s and not that of the ping" % show(i)[:60], c)
            n = self.frame_type(st, s[0][0])
            if n is not None and n != "PingRequest":
                self.fail(st, "ping response to something else", "a ping response is sent for a frame of type %s" % n, c)
            self.put(st, (s[0], 1))

    def on_send_failed(self, st, kw, c):
        # a full queue is no reason to leave a ping unanswered
        if not kw.get("full"):
            self.put(st, ((), 1))

    on_write = on_send

    def compact(self, st):
        s = self.get(st)
        if s[0] and not s[1]:
            n = self.frame_type(st, s[0][0])
            if n is not None and n != "PingRequest":
                self.put(st, ((), 0))

    def on_read_wait(self, st, kw, c):
        self.compact(st)
        s = self.get(st)
        if s[0] and not s[1] and not st.imprecise:
            if self.may_be(st, s[0][0], "PingRequest"):
                self.fail(st, "ping not answered", "a ping request is read and the next frame awaited without an answer", c)
        self.put(st, ((), 0))


class PingClient(Rule):
    """a connection passes the check only when its ping was answered"""
    name = "pingc"
    prop = "C21"
    init_state = (0, ())

    def on_send(self, st, kw, c):
        v = kw["value"]
        if self.is_frame(st, v):
            t = self.frame_type(st, v)
            self.seen("frames sent", (t,))
            if t is not None and t != "PingRequest":
                self.fail(st, "validity check sends no ping", "the validity check sends a frame of type %s" % t, c)
            self.put(st, (1, self.get(st)[1]))

    def on_recv(self, st, kw, c):
        self.put(st, (self.get(st)[0], (kw["value"],)))

    def on_exit(self, st, kw, c):
        s = self.get(st)
        r = result_of(kw["value"])
        if r is None or r[0] != "Ok" or st.cancelled or st.imprecise:
            return
        self.seen("connections found valid", self.E.rootname)
        if not s[0] or not s[1]:
            self.fail(st, "connection valid without a ping", "a connection passes the validity check although no ping was answered", c)
            return
        n = self.frame_type(st, s[1][0])
        if n != "PingResponse":
            self.fail(st, "connection valid whatever the answer", "a connection passes the validity check although the answer to its ping is %s" % (n or "of unchecked type"), c)


# ---------------------------------------------------------------- errors of the peer (C22)
class PeerError(Rule):
    """an error frame received for a call ends it with that error"""
    name = "perr"
    prop = "C22"
    # last item; decoded error; decode failed
    init_state = ((), (), 0)

    def on_recv(self, st, kw, c):
        self.put(st, ((kw["value"],), (), 0))

    def on_decode(self, st, kw, c):
        s = self.get(st)
        if s[0] and kw["type"] == "ErrorMsg" and contains(kw["src"], s[0][0]):
            self.seen("error frames", self.E.site(st, c))
            self.put(st, (s[0], (mk("app", "decoded:ErrorMsg", kw["src"]),), 0))

    def on_decode_failed(self, st, kw, c):
        s = self.get(st)
        self.put(st, (s[0], (), 1))

    def compact(self, st):
        s = self.get(st)
        if s[0] and not s[1] and not self.may_be(st, s[0][0], "Error"):
            self.put(st, ((), (), 0))

    def on_recv_wait(self, st, kw, c):
        s = self.get(st)
        if s[1]:
            self.fail(st, "call goes on after an error frame", "after an error frame for a call was read the call waits for more frames", c)
        elif s[0] and not s[2] and self.frame_type(st, s[0][0]) == "Error" and not st.imprecise:
            self.fail(st, "error frame ignored", "an error frame received for a call is skipped", c)

    def on_exit(self, st, kw, c):
        s = self.get(st)
        r = result_of(kw["value"])
        if r is None or st.cancelled or st.imprecise or s[2]:
            return
        if s[1]:
            self.seen("calls ended by an error frame", self.E.rootname)
            if r[0] == "Ok":
                self.fail(st, "error frame reported as success", "the call succeeds although an error frame was received for it", c)
            elif not contains(r[1], s[1][0]) and not is_vague(r[1]):
                self.fail(st, "error of the peer dropped", "the call fails without the code and message of the error frame: %s" % show(r[1])[:100], c)
        elif s[0] and self.may_be(st, s[0][0], "Error"):
            self.seen("calls ended by an error frame", self.E.rootname)
            if r[0] == "Ok":
                self.fail(st, "error frame reported as success", "the call succeeds although an error frame was received for it", c)
            elif not is_vague(r[1]):
                self.fail(st, "error frame not read", "the call fails without reading the error frame the peer sent: %s" % show(r[1])[:100], c)


# ---------------------------------------------------------------- the reading task of a client (C23)
class ClientReader(Rule):
    """a frame that cannot be delivered does not stop the reading of a connection"""
    name = "cread"
    prop = "C23"
    init_state = (0, 0)

    def on_read_wait(self, st, kw, c):
        self.seen("reads", self.E.site(st, c))
        self.put(st, (1, self.get(st)[1]))

    def on_read_end(self, st, kw, c):
        self.put(st, (self.get(st)[0], 1))

    on_read_err = on_read_end

    def on_map_clear(self, st, kw, c):
        s = self.get(st)
        if s[0] and not s[1] and not st.imprecise and map_kind(self.E, kw["vt"]) == "pending":
            self.fail(st, "pending calls dropped because of one frame", "the task reading a connection drops all pending calls although the connection did not end", c)

    def on_panic(self, st, kw, c):
        if self.get(st)[0] and not st.imprecise and kw.get("buf") is None and kw.get("cond") is None:
            self.fail(st, "reading ends by a panic", "the task reading a connection panics (%s) over one frame and fails all other calls" % kw["what"], c)

    def on_exit(self, st, kw, c):
        s = self.get(st)
        if st.imprecise or st.cancelled or not s[0]:
            return
        self.seen("ends", (s[1],))
        if not s[1]:
            self.fail(st, "reading ends because of one frame", "the task reading a connection ends although the connection did not: one undeliverable frame fails all other calls", c)
