"""Which rule runs from which entry point, for every property; and how much each must have looked at."""
import codec as K
import cutting as Q
import labels as B
import rules as R

SERVER = "fn:::start_server"
W = ("writer",)


def one(cls, prop):
    """a rule of several properties, restricted to one"""
    return lambda: type(cls.__name__, (cls,), {"props": (prop,), "prop": prop})()


class Job:
    def __init__(self, root, rule, need=(), thorough=False, **opts):
        self.root, self.rule, self.need, self.thorough, self.opts = root, rule, need, thorough, opts


J = Job
LOG = {"log": True}    # what is evaluated for log messages too
JOBS = {
    "C01": [
        J("send:RawMessage", one(R.ClientPending, "C01"), ("registrations", "frames sent", "waits for a response"), cancel=True),
        J("send:JsonMessage", one(R.ClientPending, "C01"), ("registrations",), thorough=True, cancel=True),
        J("manager:is_valid", one(R.ClientPending, "C01"), ("registrations", "frames sent"), cancel=True),
        J("manager:connect", one(R.ClientPending, "C01"), ("registrations", "frames sent"), cancel=True, spawned=False),
        J("manager:connect", R.DispatchIds, ("frames dispatched",), skip=W),
        J(SERVER, R.DispatchIds, ("frames dispatched",), skip=W),
        J(SERVER, one(R.ServerRequest, "C01"), ("registrations", "reply frames"), skip=W),
        J(SERVER, R.OwnTable, ("accepts", "registrations"), skip=W),
        J("manager:connect", R.OwnTableClient, ("registrations",), spawned=False),
    ],
    "C02": [
        J("codec:encode:", lambda: K.LayoutOf("C02"), ("ways through", "wire values"), runner=K.layouts),
        J("impl:codec::encoder::Encoder/encode/", lambda: K.LayoutOf("C02"), ("ways through",), runner=K.layouts),
        J("codec:decode:", lambda: K.LayoutOf("C02"), ("ways through",), runner=K.layouts),
        J("impl:codec::decoder::Decoder/decode/", lambda: K.LayoutOf("C02"), ("ways through",), runner=K.layouts),
    ],
    "C03": [
        J("codec:decode:", K.Panics, ("decoders", "frames decoded"), runner=K.decoders),
        J(SERVER, K.PeerPanics, ("waits for frames",), skip=W, eopts=LOG),
        J("send:RawMessage", K.PeerPanics, ("waits for frames",), eopts=LOG),
        J("send:JsonMessage", K.PeerPanics, ("waits for frames",), thorough=True, eopts=LOG),
        J("manager:connect", K.PeerPanics, ("waits for frames",), skip=W, eopts=LOG),
        J("manager:is_valid", K.PeerPanics, ("waits for frames",), eopts=LOG),
    ],
    "C04": [J(SERVER, one(R.ServerRequest, "C04"), ("requests followed to their end", "ends of connections"), skip=W),
            J(SERVER, R.Slots, ("slots taken",), skip=W)],
    "C05": [J(SERVER, one(R.ServerRequest, "C05"), ("waits of the request path",), skip=W)],
    "C06": [
        J("send:RawMessage", one(R.ClientPending, "C06"), ("registrations", "removals", "ends of calls"), cancel=True),
        J("send:JsonMessage", one(R.ClientPending, "C06"), ("registrations",), thorough=True, cancel=True),
        J("manager:is_valid", one(R.ClientPending, "C06"), ("registrations", "removals", "ends of calls"), cancel=True),
        J("manager:connect", one(R.ClientPending, "C06"), ("registrations", "removals"), cancel=True, spawned=False),
        J(SERVER, one(R.ServerRequest, "C06"), ("registrations", "removals"), skip=W),
    ],
    "C07": [
        J("manager:connect", R.LostClient, ("ends of frame reading",), skip=W),
        J("manager:connect", R.SenderStops, ("writes",)),
        J("send:RawMessage", R.LostRegister, ("registrations", "calls ended by a lost connection"), cancel=True),
        J("send:JsonMessage", R.LostRegister, ("registrations",), thorough=True, cancel=True),
        J("manager:is_valid", R.LostRegister, ("registrations",), cancel=True),
        J("send:RawMessage", R.OwnSender, ("waits for frames",)),
        J("manager:is_valid", R.OwnSender, ("waits for frames",)),
        J(SERVER, R.OwnSender, ("waits for frames",), skip=W),
        J("manager:has_broken", R.HasBroken, ("verdicts",)),
        J(SERVER, R.ServerEnd, ("connections closed by the client",), skip=W),
        J(SERVER, R.SenderStops, ("writes",), skip=("connection",), thorough=True),
    ],
    "C08": [
        J("send:RawMessage", R.Complete, ("deliveries",), cancel=True),
        J("send:JsonMessage", R.Complete, ("deliveries",), thorough=True),
        J(SERVER, R.Complete, ("deliveries",), skip=W),
    ],
    "C09": [
        J("fn:RequestDefragmenter::read_request", Q.Assemble, ("readers",), runner=Q.assemble),
        J("fn:ResponseDefragmenter::read_response_msg", Q.Assemble, ("readers",), runner=Q.assemble),
        J("fn:RequestDefragmenter::read_request", Q.Assemble, ("readers",), thorough=True, runner=Q.assemble, frames=4),
        J("manager:connect", R.Delivered, ("frames passed on",), skip=W),
        J(SERVER, R.DeliveredServer, ("frames passed on",), skip=W),
    ],
    "C10": [
        J("codec:encode:", lambda: K.LayoutOf("C10"), ("ways through",), runner=K.layouts),
        J("impl:codec::encoder::Encoder/encode/", lambda: K.LayoutOf("C10"), ("ways through",), runner=K.layouts),
    ],
    "C11": [
        J("send:RawMessage", R.ClientOutcome, ("outcomes",)),
        J("send:JsonMessage", R.ClientOutcome, ("outcomes",), thorough=True),
        J(SERVER, R.ServerOutcome, ("responses",), skip=W),
        J(SERVER, R.ServerCode, ("response codes",), skip=W, eopts={"see": ("::ResponseCode",), "unsee": ("::CallResponseFields",)}),
        J("handler:", R.AdapterOutcome, ("handler calls", "outcomes")),
    ],
    "C12": [
        J(SERVER, R.ServerHandshake, ("handshakes accepted", "requests"), skip=W),
        J("manager:connect", R.ClientHandshake, ("first frames", "connections accepted"), spawned=False),
    ],
    "C13": [
        J(SERVER, R.Tables, ("insertions into pending",), skip=W),
        J("send:RawMessage", R.Tables, ("insertions into pools", "insertions into pending")),
        J("manager:connect", R.Tables, ("insertions into pending",), skip=W),
        J("manager:is_valid", R.Tables, ("insertions into pending",)),
        J("fn:SubChannel::register", R.RegisterOutcome, ("outcomes", "insertions into handlers")),
        J("fn:SubChannel::register_async", R.RegisterOutcome, ("outcomes", "insertions into handlers")),
        J("fn:SubChannel::unregister", R.UnregisterOutcome, ("outcomes", "removals from handlers")),
        J("fn:TChannel::subchannel", R.GetOrCreate, ("results", "insertions into subchannels")),
        J("fn:ConnectionPools::get", R.GetOrCreate, ("results", "insertions into pools")),
    ],
    "C14": [
        J(SERVER, R.Lifecycle, ("outcomes",), spawned=False),
        J("fn:::shutdown_server", R.Stop, ("outcomes",)),
        J("drop:TChannel", R.Stop, ("outcomes",)),
        J(SERVER, R.AcceptLoop, ("accepts", "connections handed on"), skip=("writer", "connection")),
        J(SERVER, R.Served, ("connections served",), skip=W),
    ],
    "C15": [
        J("RequestFragmenter", B.Labelled, ("fragmenters",), runner=B.sent),
        J("ResponseFragmenter", B.Labelled, ("fragmenters",), runner=B.sent),
        J("fn:RequestDefragmenter::read_request", B.Told, ("readers",), runner=B.told),
        J("fn:ResponseDefragmenter::read_response_msg", B.Told, ("readers",), runner=B.told),
        J("RawMessage", B.MadeOf, ("conversions",), runner=B.made_of),
        J("JsonMessage", B.MadeOf, ("conversions",), runner=B.made_of),
    ],
    "C16": [
        J(SERVER, R.Routing, ("service lookups", "endpoint lookups", "handler calls"), skip=W),
        J("fn:SubChannel::register", R.RegisterKey, ("names of handlers",)),
        J("fn:SubChannel::register_async", R.RegisterKey, ("names of handlers",)),
        J("fn:SubChannel::unregister", R.RegisterKey, ("names of handlers",)),
        J("send:RawMessage", R.RequestService, ("services of requests",), eopts={"see": ("::RequestFragmenter",), "unsee": ("::CallRequestFields",)}),
        J("send:JsonMessage", R.RequestService, ("services of requests",), thorough=True, eopts={"see": ("::RequestFragmenter",), "unsee": ("::CallRequestFields",)}),
        J("fn:TChannel::subchannel", R.RegisterKey, ("names of subchannels",)),
    ],
    "C17": [
        J(SERVER, R.ConfigUse, ("listening address", "capacity of a frame channel", "limit of request tasks"), skip=W),
        J("send:RawMessage", R.ConfigUse, ("pools", "pool option max_size", "pool option max_lifetime", "pool option test_on_check_out")),
        J("manager:connect", R.ConfigUse, ("capacity of a frame channel",), skip=W),
        J("fn:TChannel::new", R.ConfigKept, ("configurations kept",)),
    ],
    "C18": [
        J(SERVER, R.LockOrder, ("lock acquisitions", "waits"), eopts=LOG),
        J("send:RawMessage", R.LockOrder, ("lock acquisitions", "waits"), cancel=True, eopts=LOG),
        J("send:JsonMessage", R.LockOrder, ("lock acquisitions",), thorough=True, eopts=LOG),
        J("manager:connect", R.LockOrder, ("lock acquisitions", "waits"), eopts=LOG),
        J("manager:is_valid", R.LockOrder, ("lock acquisitions",), eopts=LOG),
        J("manager:has_broken", R.LockOrder, eopts=LOG),
        J("fn:SubChannel::register", R.LockOrder, ("lock acquisitions",), eopts=LOG),
        J("fn:SubChannel::register_async", R.LockOrder, ("lock acquisitions",), eopts=LOG),
        J("fn:SubChannel::unregister", R.LockOrder, ("lock acquisitions",), eopts=LOG),
        J("fn:TChannel::subchannel", R.LockOrder, ("lock acquisitions",), eopts=LOG),
        J("fn:ConnectionPools::get", R.LockOrder, ("lock acquisitions",), eopts=LOG),
        J("fn:::shutdown_server", R.LockOrder, ("lock acquisitions",), eopts=LOG),
        J("drop:TChannel", R.LockOrder, ("lock acquisitions",), eopts=LOG),
    ],
    "C19": [
        J("manager:connect", R.Writer, ("writes", "waits for frames"), skip=("reader",)),
        J(SERVER, R.Writer, ("writes", "waits for frames")),
    ],
    "C20": [
        J("RequestFragmenter", Q.Cut, ("ways through",), runner=Q.cut),
        J("ResponseFragmenter", Q.Cut, ("ways through",), runner=Q.cut),
        J("RequestFragmenter", Q.Cut, ("ways through",), thorough=True, runner=Q.cut, frames=8),
        J("ResponseFragmenter", Q.Cut, ("ways through",), thorough=True, runner=Q.cut, frames=8),
    ],
    "C21": [
        J(SERVER, R.PingServer, ("ping responses",), skip=W),
        J("manager:is_valid", R.PingClient, ("frames sent", "connections found valid")),
    ],
    "C22": [
        J("send:RawMessage", R.PeerError, ("error frames", "calls ended by an error frame")),
        J("send:JsonMessage", R.PeerError, ("error frames",), thorough=True),
        J("manager:is_valid", R.PeerError, ("calls ended by an error frame",)),
        J("manager:connect", R.PeerError, ("calls ended by an error frame",), spawned=False),
        J("manager:connect", R.DeliveredErrors, ("frames passed on",), skip=W),
    ],
    "C23": [J("manager:connect", R.ClientReader, ("reads", "ends"), skip=W)],
    "C24": [
        J("send:RawMessage", R.Address, ("connections taken",)),
        J("send:JsonMessage", R.Address, ("connections taken",), thorough=True),
        J("manager:connect", R.Address, ("connections made",), skip=("reader", "writer")),
    ],
    "C25": [
        J("fn:RequestDefragmenter::read_request", B.Checked, ("readers",), runner=B.told),
        J("fn:ResponseDefragmenter::read_response_msg", B.Checked, ("readers",), runner=B.told),
    ],
    "C26": [
        J("RequestFragmenter", B.Required, ("fragmenters",), runner=B.sent),
        J("ResponseFragmenter", B.Required, ("fragmenters",), runner=B.sent),
    ],
}
