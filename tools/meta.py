#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONN, POOL, SRV, SUB, CH, HAND = "src/connection/mod.rs", "src/connection/pool.rs", "src/server.rs", "src/subchannel.rs", "src/channel.rs", "src/handler.rs"
DEF, FRAG, FRM, PAY, HDR, MSG = "src/defragmentation.rs", "src/fragmentation.rs", "src/frames/mod.rs", "src/frames/payloads.rs", "src/frames/headers.rs", "src/messages/mod.rs"

AI = "static analysis: path-sensitive abstract interpretation of the compiler's MIR"
TRUST = (" Trusted: the MIR dump of the pinned nightly compiler, the models of library calls (tokio, futures, bytes, std, bb8) in sa/lib.py and models/, "
         "and the engine itself. Paths the engine had to approximate are not reported on (no alarm without a concrete path).")

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))


prop("C01", "A response reaches only the call it answers",
     "Every call on a connection waits under an id no other call of that connection uses, sends its frames under that id, and gets only frames carrying that id. "
     "A server collects the frames of a request by their id and answers under the id of the request.",
     ["schedules", "histories"], "all interleavings of any number of concurrent calls on a shared connection, and all orders in which frames of different messages arrive",
     "The tests await each call on an idle connection or compare a few parallel calls; a wrong id or a mixed up channel shows only when particular calls overlap.",
     [CONN, POOL, SRV, SUB], [("id counter and table of pending messages", CONN + " FramesDispatcher"), ("dispatch of read frames", CONN + " FrameReceiver, " + SRV), ("reply id", SRV)],
     "dataflow of ids: value numbering of message ids, table keys and channels over all paths (" + AI + ")",
     "On every analysed path the id registered, the id in sent frames, the table key a frame is dispatched by and the id of replies are the same value, and fresh ids come from one atomic increment." + TRUST)

prop("C02", "Frames and payloads follow the layout of the protocol, in both directions",
     "A frame is its size (2 bytes), type, a zero byte, id (4), eight zero bytes and the payload. In the payload of every frame type each field of the message is written exactly once, "
     "in the protocol's place, width, byte order (big endian) and code value, and nothing else is written; each field decoded is the one found in that place, all arguments and headers are decoded with their own keys and "
     "lengths, and decoding ends where the layout ends. A code or flag that is not known, and bytes left after the arguments, are an error and not read as something else. "
     "The frame decoder asks for more bytes exactly while the frame is incomplete, and consumes nothing then.",
     ["inputs"], "all values of all fields of all frame types, all splits of the stream into reads",
     "The tests decode what the same code encoded (a mistake made on both sides cancels out), for a few values, and receive whole frames.",
     [FRM, PAY], [("frame codec", FRM + " TFrameIdCodec"), ("payload codecs", PAY + " Codec"), ("codes", PAY + ", " + FRM + ", src/messages/args.rs")],
     "value numbering of buffers: comparison of what each encoder appends and where each decoder reads, term by term, with the protocol's layout (" + AI + ")",
     "Encoders are analysed with messages of unknown fields and 0 to 3 headers or arguments, decoders from a buffer of unknown content; fields are compared as terms (which field, which offset, which width). "
     "Not covered: payloads with more headers than the analysis unrolls." + TRUST)

prop("C03", "Nothing a peer sends makes the library panic",
     "Every decoder (frames, payloads of all frame types, headers, arguments) returns a value or an error on any bytes a frame can carry; none indexes, slices or reads past what is there, overflows, or unwraps. "
     "No order or kind of well formed frames, and no content of a message, drives the frame handling of client or server into a panic.",
     ["inputs", "histories"], "all byte strings up to the largest frame, in every decoder; all sequences of frames",
     "The tests decode what the library itself encoded.",
     [PAY, FRM, HDR, CONN, SRV, DEF], [("decoders", PAY + ", " + FRM + ", " + HDR), ("frame handling", CONN + ", " + SRV + ", " + DEF)],
     "interval and inequality analysis of remaining buffer sizes at every read, index and slice of the decoders; reachability of explicit panics (" + AI + ")",
     "Each decoder is analysed from a buffer of unknown content and size (up to the largest frame if the frame codec refuses larger ones); reads must be proved within the rest of the buffer. "
     "Outside the decoders only explicit panics, unwraps and missing elements count." + TRUST)

prop("C04", "A failing request is answered with an error and harms no other",
     "Every request a server has read completely or found defective is answered exactly once: with its response, or with an error frame. "
     "Whatever is wrong with one request or with its handler's result, other requests on the same connection are still served.",
     ["inputs", "histories"], "all requests a client can send (malformed, unknown service or endpoint, unknown types) and all results of handlers",
     "The tests send only well formed requests to registered endpoints whose handlers succeed.",
     [SRV, CONN, DEF], [("per request error handling", SRV), ("dispatch of frames by type", SRV)],
     "typestate of requests (received, answered) over all paths of the server's connection task (" + AI + ")",
     "No path of the connection task ends the work on a request without a reply, replies twice, or ends the task because of one request." + TRUST)

prop("C05", "A server keeps reading while requests are incomplete or being handled",
     "The reading of frames of a connection never waits for the remaining frames of a request, for a handler, or for a free handler slot. "
     "The limit on concurrent requests only counts requests received completely.",
     ["schedules", "inputs"], "all interleavings of fragments of concurrent requests, any number of incomplete requests and slow handlers, all limits",
     "The tests interleave no fragments and never have more incomplete requests than the limit.",
     [SRV], [("concurrent request tasks and limit", SRV)],
     "effect analysis: where the reading task of a connection may wait, and which permits are held there (" + AI + ")",
     "Every wait on the request path is attributed to the task and scope it suspends; none suspends reading, and no permit is held while frames are awaited." + TRUST)

prop("C06", "A finished or cancelled call leaves nothing registered",
     "When a call ends, by success, by any error, or because the caller dropped it while waiting, its entry in the table of pending messages of the connection is gone. "
     "The same holds for requests in a server once they were read, but not before all their frames were read.",
     ["crash_points", "histories", "fault_sequences"], "all ends of calls: success, every error, and being dropped at every await point",
     "The tests never drop a call or look at the table; a leak has no effect until ids wrap or memory runs out.",
     [CONN, SUB, POOL, SRV, DEF], [("removal of the entry when the response reader is dropped", CONN + " FrameOutput"), ("deregistration", SRV)],
     "resource typestate (registered, removed) over all paths including cancellation at every await and drop glue (" + AI + ")",
     "Every path, including dropping the future at each await, removes the entry it registered." + TRUST)

prop("C07", "A lost connection fails its calls instead of hanging them",
     "When the reading or writing of a connection ends, all calls waiting on it fail, later calls on it are refused or fail, and the pool is told it is broken. "
     "No interleaving lets a call register after the pending calls were failed and then wait for ever; on the server, requests left incomplete by a departed client are released.",
     ["schedules", "fault_sequences"], "connection loss at any moment relative to every step of any number of calls",
     "The tests close connections only after all calls completed.",
     [CONN, POOL, SRV], [("closed mark and emptying of the table under one guard", CONN), ("check on registration", CONN), ("broken check of the pool", POOL)],
     "typestate and lock-region analysis of closing and registering (" + AI + ")",
     "The mark is set and the table emptied within one write guard on every path ending the reader; every registration checks the mark under the same guard; the writer stops at the first failure." + TRUST)

prop("C08", "A truncated message is never delivered",
     "A request reaches its handler, and a response its caller, only if the frame received last was read and said that no fragments follow. "
     "A message whose frames end early is an error.",
     ["inputs", "fault_sequences"], "all sequences of fragments and all points at which the sequence can be cut off",
     "The tests never cut a message off.",
     [DEF, SRV, SUB], [("loop over continuation frames", DEF)],
     "typestate of the last frame's more-fragments flag at every delivery (" + AI + ")",
     "At every delivery, on every path, the flag of the last frame read is known to be unset and the frame channel did not end before." + TRUST)

prop("C09", "A message is delivered with exactly the arguments its frames carry",
     "The arguments handed to a handler or a caller are the fragments in the frames of the message, in order: the first argument of a continuation frame continues the last argument of the frame before, "
     "an empty one just ends it, every other one begins a new argument. Nothing is lost, repeated, reordered, split or run together, wherever the sender cut the message.",
     ["inputs", "histories"], "all ways to cut a message of up to three arguments into frames, and all contents and sizes of arguments",
     "The tests put together only what the library's own fragmenter cut, for a few lengths; another sender may cut at any place.",
     [DEF], [("defragmentation", DEF + " RequestDefragmenter, ResponseDefragmenter")],
     "value numbering of fragments: the sequence of fragments each delivered argument is made of, for every combination of frames (" + AI + ")",
     "Fragments are unknown byte strings; all messages of up to three frames (thorough: four) with up to three arguments each are followed, longer ones are not." + TRUST)

prop("C10", "A length written fits what follows, or encoding fails",
     "Every length and count an encoder writes (frame size, text and argument lengths, number of headers) is exactly that of what it writes after it. "
     "A text, argument, list of headers or frame too large for its length field is refused with an error; it is never cut off, and its length never wraps around.",
     ["inputs"], "all sizes of texts, arguments, header lists and frames",
     "The tests encode short values; a wrapped length shows only beyond 255 or 65535 bytes, and desynchronises the whole connection.",
     [FRM, PAY], [("frame size", FRM + " TFrameIdCodec::encode"), ("length fields", PAY + " encode_len, encode_args")],
     "value numbering: comparison of length terms with the lengths of the bytes appended after them, and interval analysis of narrowing casts (" + AI + ")",
     "For every encoder and every path that succeeds the length term equals the length of the content appended, and narrowing casts are proved to fit from the path's checks. Messages with 0 to 3 headers or arguments of unknown size." + TRUST)

prop("C11", "Outcome of a handler and outcome of the call agree",
     "A response marked successful is returned as success and one marked failed as an error message, whatever its contents. "
     "The server marks the response with the outcome its handler had and sends the arguments the handler returned.",
     ["inputs"], "all handlers, their results, and all response codes a peer can send",
     "The tests only have handlers that succeed.",
     [HAND, SUB, SRV, MSG], [("conversion of handler results", HAND), ("response code check", SUB)],
     "correlation of response code and outcome on all paths (" + AI + ")",
     "At every end of a call the response code is known and agrees with the variant returned; adapters map each handler result to its code." + TRUST)

prop("C12", "Nothing but a version 2 handshake opens a connection",
     "A client hands out a new connection only after its init request was answered by an init response of version 2; a server reads requests only after it received an init request of version 2 and answered it under the same id. "
     "Both announce version 2.",
     ["inputs", "histories"], "all first frames a peer can send",
     "The tests only connect the implementation to itself.",
     [POOL, SRV, CONN], [("init handshake of the client", POOL), ("init handshake of the server", SRV)],
     "typestate of the handshake over all paths (" + AI + ")",
     "On every path a connection is used only in the state where frame type and version of the peer's init message are known to be right." + TRUST)

prop("C13", "Registering never replaces, and reports what it did",
     "Registering a handler fails if its name is taken and otherwise adds it; unregistering succeeds exactly if the handler was there. "
     "Asking for a subchannel or connection pool by name gives everyone the same one, under any interleaving, and a message id in use is never registered again.",
     ["schedules", "histories"], "all interleavings of registrations, lookups and removals, under all names",
     "The tests register each name once from one task.",
     [SUB, CH, CONN, POOL], [("tables behind locks, checked and changed under one guard", "subchannel, channel, pools, dispatcher")],
     "typestate of table entries across lock regions (" + AI + ")",
     "Every insertion on every path is into a slot known to be empty under the guard in force; what is returned is the value kept in the table, and reported outcomes match effects." + TRUST)

prop("C14", "A server is started once, serves every connection, and can be stopped",
     "Starting fails while the channel's server runs and otherwise starts one, also when the one before ended by itself; stopping or dropping the channel stops it and allows a new start. "
     "While it runs, every accepted connection is served by a task of its own and no failure to accept one ends the accepting.",
     ["histories", "fault_sequences"], "all sequences of start and stop, and all failures of accepting",
     "The tests start one server per channel and accepting never fails.",
     [CH, SRV], [("handle of the server task", CH), ("accept loop", SRV)],
     "typestate of the server handle and the accept loop (" + AI + ")",
     "All paths of start, stop, drop and the accept loop." + TRUST)

prop("C15", "Messages are labelled with their encoding and made of exactly their arguments",
     "Every request and response sent names the encoding of its arguments in its `as` header. A received message without the header, with a label no encoding has, or with the label of another encoding is refused, never delivered. "
     "A raw or JSON message is sent as exactly three arguments, its endpoint, header and body, and one received is made of them, unchanged and in order.",
     ["inputs"], "all headers of a first frame, all encodings and all contents of the three arguments",
     "The tests exchange messages of one encoding, with headers made by the library itself.",
     [DEF, FRAG, "src/messages/raw.rs", "src/messages/json.rs"], [("reading of the label", DEF), ("headers of calls", FRAG), ("conversions of messages", "src/messages")],
     "path conditions on the label against the encoding delivered, and dataflow of arguments (" + AI + ")",
     "Messages read of one frame (the label is in the first); all five encodings; the content of JSON is the business of serde." + TRUST)

prop("C16", "Requests are routed exactly by service and endpoint",
     "The handler run for a request is the one registered under exactly the service and the endpoint (first argument) it names; where there is none, no handler runs. "
     "Handlers and subchannels are kept under exactly the name given, and a call names the service of the subchannel it is made on.",
     ["inputs", "histories"], "all service and endpoint names, registered or not",
     "The tests use one service and name endpoints that are registered.",
     [SRV, SUB, CH], [("lookup of subchannel and handler", SRV + ", " + SUB)],
     "dataflow of lookup keys from request fields and API arguments to table accesses (" + AI + ")",
     "The key of every lookup on the request path is the decoded field itself; handlers are only called after a hit." + TRUST)

prop("C17", "Every configured option takes effect",
     "The configured server address, number of connections, connection lifetime, connection test, frame buffer size and limit of concurrent requests are what the server, the pools and the frame queues are made with. "
     "No option is replaced by a constant or swapped with another.",
     ["configurations"], "all values of all options",
     "The tests run with the default options, under which constants and configured values cannot be told apart.",
     ["src/config.rs", CH, POOL, SRV, CONN], [("use of the configuration", "channel, pool, server, connection")],
     "dataflow of configuration fields to the calls they configure (" + AI + ")",
     "Each sink (bind, pool builder options, channel capacity, request limit) receives the value of its own option on every path." + TRUST)

prop("C18", "No operation deadlocks on the library's own locks",
     "No task requests a lock it already holds or takes two locks in an order opposite to another's. "
     "The locks of the shared tables are never held while waiting for the network, a queue, a handler or a pool.",
     ["schedules"], "all interleavings of all operations of clients and servers",
     "A deadlock needs a particular interleaving, which tests do not control.",
     [CONN, POOL, SRV, SUB, CH], [("guards", "connection, pool, subchannel, channel")],
     "lock-order and held-lock analysis over all entry points (" + AI + ")",
     "Held-lock sets at every acquisition and every await on every path; acquisition order graph over all entry points is acyclic." + TRUST)

prop("C19", "Queued frames are written once, in order, and flushed",
     "Frames queued on a connection are written to it unchanged and in the order they were queued, each exactly once. "
     "They are flushed before the writer waits for more.",
     ["schedules", "histories"], "all batches the writer can find in its queue",
     "Tests with one call at a time rarely queue more than one frame at once; a lost flush is hidden by later frames.",
     [CONN], [("writing task", CONN + " FrameSender")],
     "typestate of queued frames in the writing task (" + AI + ")",
     "All paths of the writing task; batches of up to two frames exactly, longer ones only for flushing." + TRUST)

prop("C20", "A message is cut into frames that carry all of it and can be read",
     "The frames of a message are one of the first type and continuation frames; all but the last say that more follow and the last one does not; none is larger than a frame can be and none is without arguments. "
     "The fragments in them make up exactly the three arguments of the message, whatever their sizes: none is lost, cut short, repeated or run together with the next.",
     ["inputs"], "all sizes of all three arguments, including the empty one and those that end exactly at the end of a frame",
     "The tests cut a few sizes; what goes wrong needs a size within a few bytes of a frame's end, in one of three arguments.",
     [FRAG], [("fragmentation", FRAG + " RequestFragmenter, ResponseFragmenter, ArgsFragmenter")],
     "linear inequality analysis of fragment boundaries over all paths, with terms for slices of the arguments (" + AI + ")",
     "Sizes are unknown numbers (arguments up to 1 GiB) constrained by each path's checks; boundaries are compared as linear terms. Messages of up to four frames are followed (thorough: eight)." + TRUST)

prop("C21", "Pings are answered, and a connection is valid only if its ping was",
     "A server answers every ping under the id of the ping before it reads the next frame. "
     "A pooled connection passes the validity check only if its ping was answered by a ping response.",
     ["inputs", "histories"], "all frames a peer can send, at any time",
     "No test sends a ping to a server or checks a connection.",
     [SRV, POOL], [("dispatch by frame type", SRV), ("validity check", POOL)],
     "typestate of ping frames over all paths (" + AI + ")",
     "Every path of the connection task on which a ping was read sends a ping response with its id; every path accepting a connection has seen a ping response." + TRUST)

prop("C22", "An error frame from the peer reaches the caller",
     "A call for which the peer sends an error frame ends at once with an error that carries the code and message of the frame. "
     "It is never taken for a response, skipped, or replaced by an unrelated error.",
     ["inputs", "histories"], "all error frames, at any position of a response",
     "No test makes a server send an error frame.",
     [CONN, DEF, POOL, SUB], [("handling of frame types in the response readers", DEF + ", " + POOL)],
     "dataflow from the decoded error frame to the returned error (" + AI + ")",
     "On every path on which a frame of type error was received the call returns an error built from the decoded frame." + TRUST)

prop("C23", "One bad frame does not stop a client's connection",
     "A client goes on reading a connection after a frame it cannot deliver: unknown id, caller gone. "
     "Reading ends only when the connection does.",
     ["inputs", "histories", "schedules"], "all frames a server can send, and all moments at which callers go away",
     "No test sends frames for unknown ids or drops a call.",
     [CONN], [("reading task", CONN + " FrameReceiver")],
     "reachability of the reading task's end (" + AI + ")",
     "The reading task ends only on paths where the connection ended or could not be decoded." + TRUST)

prop("C24", "A call goes to the address it names",
     "The connection a call is sent on is one made to an address its host resolves to. "
     "A pool of connections is kept and used under a key that tells its address, host and port, from every other, and connects to that address only.",
     ["inputs", "histories"], "all addresses and all sequences of calls to several of them",
     "The tests call one server; with a single address every mix-up of addresses is invisible.",
     [POOL, SUB], [("lookup of pools", POOL), ("resolving of the host", SUB)],
     "dataflow of the resolved address to keys of the pool table, connection managers and connecting (" + AI + ")",
     "Every way a call gets a connection: from a pool kept and from one made." + TRUST)

prop("C25", "A message with a checksum that was not verified is never delivered",
     "Every frame of a message delivered either carries no checksum or one which was verified; a message with a checksum the library cannot verify is refused, whichever of its frames carries it.",
     ["inputs"], "all types of checksum in all frames of a message",
     "The library itself sends no checksums, so its tests never receive one.",
     [DEF], [("checksum of frames", DEF)],
     "path conditions on the checksum of each frame at the delivery of the message (" + AI + ")",
     "Messages of up to three frames, with every type of checksum." + TRUST)

prop("C26", "A request carries what a peer needs to take it",
     "Every request sent has a time to live greater than zero and names its caller in the `cn` header, and every header of a request or response has a name of at most 16 bytes, "
     "as the protocol demands.",
     ["inputs"], "all requests and responses, of every encoding",
     "The library's own server, which the tests use, accepts requests without either.",
     [FRAG], [("fields of calls", FRAG)],
     "constant propagation to the fields of every call encoded (" + AI + ")",
     "All ways to make a request or response." + TRUST)

# ------------------------------------------------------------------ not claimed
prop("N02", "Requests end when their time to live is over",
     "A call ends with a timeout once its time to live has passed.",
     ["schedules", "inputs"], "all times to live and delays", "Tests never wait that long.",
     [SUB, SRV], [("ttl field of requests", PAY)],
     na="The library does not implement timeouts (the field is only sent), and elapsed time is a runtime quantity outside of any static bound.")
prop("N03", "Memory used by a connection is bounded",
     "A peer cannot make a connection hold more memory than its configured buffers allow.",
     ["inputs", "histories"], "all sequences of frames", "Tests send few frames.",
     [SRV, DEF], [("bounded frame queues", CONN)],
     na="The size of a message is not limited by design (fragments are collected until the last), so there is no bound to prove; queue capacities are covered by C17.")
prop("N04", "Every runnable call makes progress",
     "No call is starved by other calls on the same connection.",
     ["schedules"], "all schedules", "Tests run few calls.",
     [CONN, SRV], [("tasks and queues", CONN)],
     na="Fairness depends on the runtime's scheduler, which is not part of the analysed source; blocking by the library's own waits is covered by C05 and C18.")


def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, "sa"))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: (p["na"] is not None, p["id"])):
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
            }) + "\n")
    m = {"version": 1, "setup_cmd": "./check --setup",
         "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check %s --tier=thorough" % p["id"],
                     "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in sorted(P, key=lambda p: p["id"]) if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "No hooks in /repo. All checks analyse what rustc makes of /repo's current tree; see DESIGN.md. Repaired defects are listed in known_findings.txt."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
