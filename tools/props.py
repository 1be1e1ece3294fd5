"""Source of /verif/properties.jsonl and the check list of /verif/MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, quant, why, mech, files=None, observe=None, tech=None, note=None, na=None):
    fs = files or sorted({m[1].split(":")[0].split("::")[0] for m in mech})
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over.split(), "text": quant}, "why_tests_cant": why,
         "anchors": {"files": fs, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (pid, len(title))
    P.append((d, tech, note, na))


# ---------------------------------------------------------------- concurrency
prop("L01", "Every lock taken is released on every way out",
     "Whenever code of the library takes a lock, the lock is released exactly once on every way out of the code that took it, "
     "including when the guarded work raises, and the exception is not swallowed by the release. "
     "A lock that the same thread may take again while already holding it is re-entrant.",
     "schedules fault_sequences", "every path, normal or exceptional, through every function that takes a lock",
     "tests rarely make guarded code raise, and a lock left held only shows when another thread wants it later",
     [("optional lock context manager", "vtelem/classes/time_entity.py:OptionalRLock"),
      ("locks of registries, daemons, environment", "vtelem/registry/__init__.py:Registry")])
prop("L02", "Locks are always taken in one global order",
     "No two locks of the library (environment, daemon, time keeper, daemon manager, stream writer, client manager, registry, "
     "event queue, state machine) are ever taken in opposite orders by two pieces of code, directly or through the calls "
     "and callbacks made while a lock is held, so threads cannot deadlock on each other's locks.",
     "schedules", "all interleavings of threads using the public API",
     "a lock-order inversion needs two threads at exactly the wrong points; the tests run almost everything from one thread",
     [("nested critical sections", "vtelem/classes/udp_client_manager.py:UdpClientManager.remove_client"),
      ("slave updates under the keeper's lock", "vtelem/classes/time_keeper.py:TimeKeeper.set_slaves")])
prop("L03", "No unbounded wait while a shared lock is held",
     "While the lock of an environment, a daemon, the stream writer, the time keeper, a registry or a client manager is held, the library never "
     "waits for another party: it does not join a thread, sleep, wait on a semaphore, put to or get from a queue that may "
     "be full or empty, or send or receive on a connection.",
     "schedules", "every point at which such a lock is held, in every schedule",
     "a blocked consumer or full queue has to coincide with the lock being held; tests use nearly-empty queues",
     [("frames queued after the lock is released", "vtelem/channel/environment.py:ChannelEnvironment.dispatch"),
      ("thread joined outside of the lock", "vtelem/daemon/__init__.py:DaemonBase.stop")])
prop("L04", "Shared tables and counters change only under their lock",
     "Every change to state shared between threads (registry entries and ids, registered daemons, a writer's streams and "
     "queues with their ids, udp and tcp client tables, a daemon's state and metric counters, time keeper slaves and scale, "
     "connection wait counts) is made while holding the lock that guards that state.",
     "schedules", "all interleavings of threads", "lost updates and torn tables need a thread switch inside a few bytecodes",
     [("registry table", "vtelem/registry/__init__.py:Registry.add"),
      ("stream tables", "vtelem/stream/writer.py:StreamWriter.add_stream"),
      ("daemon state", "vtelem/daemon/__init__.py:DaemonBase.set_state")])
prop("L05", "Channel groups, dispatch and channel commands are atomic",
     "A channel group reads all its channels in one critical section of the environment lock and writes them all in one such section; "
     "one dispatch captures channel values and events in one critical section; and a channel command (set, get, increment, "
     "decrement) runs entirely inside one, so none of them sees or leaves a half-done update of another.",
     "schedules", "all interleavings of application, command and telemetry threads",
     "tearing needs another thread to run between two channel accesses; tests use one thread",
     [("group read/write", "vtelem/channel/group.py:ChannelGroup.read"),
      ("dispatch", "vtelem/channel/environment.py:ChannelEnvironment.dispatch"),
      ("channel commands", "vtelem/factories/telemetry_environment.py:create_channel_commander")])

# ---------------------------------------------------------------- wire format
prop("W01", "Frame headers and footers are read exactly as they are written",
     "Every frame starts with application id, frame type, timestamp and element count and ends with the optional checksum, and the "
     "decoder reads the same fields, in the same order and with the same widths and byte order as the encoder writes them. "
     "The count the decoder sees is the number of elements added, and the checksum covers every byte before it.",
     "inputs programs", "all frames of all types", "round trips in tests use one application id, one type width and few elements",
     [("encoder", "vtelem/frame/__init__.py:Frame"), ("decoder", "vtelem/parsing/encapsulation.py:parse_frame_header")])
prop("W02", "Frame payloads are read exactly as they are written",
     "For data, event and message frames the decoder reads the payload in the layout in which the encoder wrote it: all "
     "channel ids and then the values in the same order for data frames, value and time of the previous and then of the current "
     "state for event frames, and the message fields followed by the fragment for message frames. "
     "Each decoded value is attributed to the channel, field or side it was written for.",
     "inputs", "all payloads of all frame types, element counts and channel types",
     "tests send a handful of layouts; a swap of two equal-width fields keeps most of them green",
     [("channel frame encoder", "vtelem/frame/channel.py:ChannelFrame"), ("message encoder", "vtelem/frame/message.py:MessageFrame"),
      ("decoders", "vtelem/parsing/frames.py")])
prop("W03", "Primitive tables agree with the binary encoding",
     "For every primitive type the declared size, signedness, value type and limits are those of its binary format code, its name is "
     "unique, and a value is accepted for a type only when that type's format can pack it. The default types used on the wire "
     "(id, enum, count, timestamp, checksum, metric) are unsigned integers.",
     "inputs", "all primitive types and all values", "tests probe single values per type",
     [("primitive table", "vtelem/enums/primitive.py:Primitive"), ("defaults", "vtelem/classes/__init__.py:DEFAULTS")])
prop("W04", "Frames never outgrow the MTU and reject an element untouched",
     "An element is added to a channel frame only if the frame is not finalized and the frame's size after adding it, checksum included, is at most the "
     "MTU; the size accounted equals the bytes written. "
     "When an element is refused, the frame is unchanged.",
     "inputs histories", "all sequences of additions with all channel types", "needs element sizes to hit the boundary exactly",
     [("size accounting", "vtelem/frame/channel.py:ChannelFrame.add"), ("overhead", "vtelem/frame/__init__.py:Frame")])
prop("W05", "Each captured value or event lands in exactly one queued frame",
     "When channel data or events are framed, each captured emission and each captured event is put in exactly one frame, under its own "
     "channel's id and type, and each frame holding at least one of them is finalized and then queued exactly once. "
     "The reported frame and element counts are the numbers actually queued and captured.",
     "inputs histories", "all numbers of channels, events and frame-boundary positions",
     "a lost element at a frame boundary needs precise sizes",
     [("data framing", "vtelem/channel/framer.py:ChannelFramer.build_data_frames"),
      ("event framing", "vtelem/channel/framer.py:ChannelFramer.build_event_frames")])
prop("W06", "Frames of another application or with a bad checksum are never delivered",
     "Decoding yields a frame only if its application id matches the expected one (when one is expected) and its checksum, when present, "
     "matches the received bytes. A client delivers each successfully decoded frame once, counts exactly those, and a malformed "
     "or rejected frame does not keep the following ones from being delivered.",
     "inputs", "all byte sequences received", "tests corrupt one frame in one way",
     [("decode", "vtelem/parsing/encapsulation.py:decode_frame"), ("delivery", "vtelem/client/__init__.py:TelemetryClient.handle_frames")])
prop("W07", "Length-prefixed streams are cut into exactly the frames sent",
     "However a byte stream is split into reads, every received byte is kept in order, each length prefix is consumed once, each frame returned has "
     "exactly the length announced by its own prefix, and a prefix or frame not yet complete is kept until the rest arrives. "
     "A prefix larger than the MTU discards the buffered data and the next prefix is read afresh.",
     "inputs schedules", "all segmentations of the stream", "tests use a few segmentations",
     [("reassembly", "vtelem/frame/processor.py:FrameProcessor")])
prop("W08", "A finalized frame never changes and only finalized frames are sent",
     "Finalizing a frame writes the count, the payload and the checksum exactly once, and a second finalize only reports the size. A finalized frame accepts no further elements or "
     "message contents, its raw bytes and its length-prefixed form are available only after it is finalized, and the length prefix is the frame's "
     "exact size.",
     "histories", "all sequences of operations on a frame", "tests call the operations in the expected order",
     [("finalize", "vtelem/frame/__init__.py:Frame.finalize"), ("size header", "vtelem/frame/__init__.py:Frame.with_size_header")])

prop("F01", "Every frame says whose it is, what it holds and for which time it was made",
     "Every frame a framer makes carries that framer's one application identifier, made once from the basis given (any basis, zero included), the type field of the kind asked for, the framer's "
     "own size limit and checksum choice, and, if made for a time, exactly that time in milliseconds. Data and event frames of one dispatch, and every frame of one message, are asked for under their own kind and for "
     "the one time given (a frame continuing a full one may keep the time of the one before). Nothing but making a frame changes a framer's identifier, type or timestamp fields.",
     "inputs histories", "all kinds, times and application identifiers", "tests decode frames of one application made at a few times",
     [("new frames", "vtelem/frame/framer.py:Framer.new_frame"), ("dispatch", "vtelem/channel/environment.py:ChannelEnvironment.dispatch"), ("messages", "vtelem/message/framer.py:MessageFramer.serialize_message")])
prop("F02", "Size limits only shrink, fit their path and leave room for headers",
     "A frame builder's size limit changes only to a smaller one, under the lock frames are built under, and a smaller one offered is always taken; a frame's own limit never changes. What is usable of a path's limit leaves room for IP and UDP headers and for "
     "the size written before a frame; the server builds frames for what is usable of the limit it finds, never above the usual one, and a UDP client is told the limit of its own socket less those headers. A limit is asked of the socket in question after a probe of the "
     "size given with fragmentation forbidden, and that setting is restored even if the probe fails. Sockets opened only to find a limit or a free port are closed, and an address keeps its port unless that is zero.",
     "inputs configurations", "all path limits, hosts and probe outcomes", "tests run over loopback, whose limit is huge",
     [("limit", "vtelem/channel/environment.py:ChannelEnvironment.handle_new_mtu"), ("discovery", "vtelem/mtu.py:discover_mtu"), ("usable", "vtelem/mtu.py:mtu_to_usable"), ("clients", "vtelem/classes/udp_client_manager.py:UdpClientManager.add_client")])

# ---------------------------------------------------------------- messages
prop("M01", "A message is delivered once, complete, and in order",
     "A message's callbacks run exactly once when its last missing fragment arrives, and never while a fragment is missing, however fragments are ordered, "
     "duplicated or repeated after completion. The delivered content is the concatenation of the fragments in index order.",
     "histories inputs", "all orders and duplications of fragments", "tests ingest fragments in order",
     [("ingest", "vtelem/message/cache.py:MessageCache.ingest"), ("content", "vtelem/message/cache.py:MessageCache.content")])
prop("M02", "Stored message fragments are found again after a restart",
     "Every fragment is written to disk under its message type, checksum and index, the cache reloads from exactly those locations every fragment of "
     "every message, and a fragment file becomes visible under its final name only when completely written. "
     "A fragment is held in memory only after it is on disk.",
     "crash_points histories", "a crash at any point while storing", "tests never crash inside a write",
     [("store", "vtelem/message/cache.py:MessageCache.store_fragment"), ("load", "vtelem/message/cache.py:MessageCache.load_fragments")])
prop("M03", "Message fragments cover the message exactly and agree on metadata",
     "Splitting a message yields fragments numbered from zero whose contents are consecutive, non-overlapping parts of the message that fit "
     "the MTU, and all carry the same type, number, checksum and total. Each message of a type takes the next message number, wrapping within the "
     "number's width.",
     "inputs", "all message lengths and MTUs", "tests use two or three lengths",
     [("fragmenting", "vtelem/message/framer.py:MessageFramer.serialize_message")])

# ---------------------------------------------------------------- daemons
prop("D01", "Daemons move only through legal lifecycle states",
     "A daemon starts only when idle, pauses only when running, resumes only when paused and begins stopping only when running or "
     "paused; the check and the change of state are one atomic step, and an operation that is not legal in the current state "
     "returns failure without changing it.",
     "histories schedules", "all sequences and interleavings of operations", "tests run one operation at a time",
     [("lifecycle", "vtelem/daemon/__init__.py:DaemonBase")])
prop("D02", "A daemon's thread always ends idle and stopping waits for it",
     "A started daemon runs its work in exactly one new thread, and whenever that work ends, normally or by an exception, the daemon "
     "becomes idle again. Stopping signals the thread after the state says so, waits for it with a time limit, and reports success only if it did. "
     "Using a daemon for the length of a block undoes on every way out what it did on the way in, and only that: a daemon somebody else started or paused is left alone.",
     "fault_sequences schedules", "all ways in which the work can end", "tests' tasks do not raise",
     [("thread harness", "vtelem/daemon/__init__.py:DaemonBase.run_harness"), ("stop", "vtelem/daemon/__init__.py:DaemonBase.stop")])
prop("D03", "Operations on daemons report failure unless they took effect",
     "An unknown operation or an unknown daemon is reported as failure and never raises or registers anything; an operation already in effect is reported as "
     "success without acting; otherwise the result is that of the action. An operation on all daemons is applied to each registered daemon and succeeds only if it did on every one, and daemon names are unique.",
     "inputs histories", "all operation names, daemon names and results", "tests use the success paths",
     [("perform", "vtelem/daemon/__init__.py:DaemonBase.perform"), ("manager", "vtelem/daemon/manager.py:DaemonManager")])
prop("D04", "A group operation reaches dependencies first and each daemon once",
     "When the daemon manager applies an operation to all daemons, a daemon is operated on only after every daemon it depends on has been, and no "
     "daemon is operated on twice.",
     "configurations", "all acyclic dependency graphs and registration orders", "tests use one small graph",
     [("ordering", "vtelem/daemon/manager.py:DaemonManager.perform_stack")])
prop("D05", "Every kind of daemon stops when told to and never works while paused",
     "Each kind of daemon either re-checks for the stop request before each piece of work or registers a stop action that ends its blocking "
     "wait, a queue-driven daemon ends at the end-of-stream marker without handling it and handles every element before it exactly once, and a "
     "paused periodic daemon does not run its task.",
     "schedules programs", "every daemon class and every schedule", "a missing stop action only shows as a hung shutdown",
     [("stop actions", "vtelem/daemon/queue.py:QueueDaemon"), ("periodic loop", "vtelem/daemon/synchronous.py:Daemon.run")])

prop("D06", "Stopping a socket server ends and awaits every connection it opened",
     "Every connection a websocket server accepts or a websocket client opens is counted once, before it is served and under the daemon's lock, and is posted once and closed when it ends, however it ends. Stopping cancels every task of the "
     "daemon's own event loop, tells the loop to stop, waits for exactly the connections counted and takes exactly those off the count, so that a later stop waits neither for connections which ended long ago nor for fewer than are open. "
     "A client has at most one connection.",
     "schedules fault_sequences", "every interleaving of connections opening, ending and failing with stops and starts", "a lost count shows only when a connection opens while another ends or a server is stopped twice",
     [("stopping", "vtelem/daemon/event_loop.py:EventLoopDaemon.__init__"), ("serving", "vtelem/daemon/websocket.py:WebsocketDaemon.__init__"), ("client", "vtelem/client/websocket.py:WebsocketClient.__init__")])

# ---------------------------------------------------------------- commands, http
prop("X01", "Every command is answered and no command can stop the processor",
     "A rejected command (malformed, unknown, or without handlers) is answered exactly once, with failure; an accepted one runs every "
     "registered handler once and answers once per handler with that handler's own result. A handler that raises is answered as "
     "failure and does not stop command processing, and processing commands never registers new command names.",
     "inputs fault_sequences", "all commands and all handler behaviours", "tests use well-behaved handlers",
     [("command processing", "vtelem/daemon/command_queue.py:CommandQueueDaemon")])
prop("X02", "Waiting for a command's result never reports an unconfirmed success",
     "Executing a command and waiting for its result reports success only when a handler's reply of success arrived within a bounded "
     "wait; with no reply in time it reports failure. The command is queued exactly once.",
     "schedules", "all delays of the command thread", "tests have a fast command thread",
     [("execute", "vtelem/daemon/command_queue.py:CommandQueueDaemon.execute")])
prop("X03", "Commands never change a channel that is not commandable",
     "Every way a command can change a channel (by name or id, plain or enum, set, increment or decrement) goes through the channel's "
     "own command check, a channel marked as not commandable is left unchanged with failure reported, and incrementing or decrementing an enum channel is refused. "
     "Every metric channel is created as not commandable.",
     "inputs programs", "all commands on all channels", "tests check one channel and one operation",
     [("command gate", "vtelem/channel/__init__.py:Channel.command"),
      ("command operations", "vtelem/factories/telemetry_environment.py")])
prop("X04", "Every HTTP request gets exactly one well-formed response",
     "A request whose path has a handler gets exactly one response: success with a content length equal to the bytes of the body sent (none for HEAD) if the handler "
     "reports success, and an error response if it reports failure or raises; a request for an unknown path gets one not-found error. Looking up an unknown path registers nothing.",
     "inputs fault_sequences", "all requests and handler results", "tests use ASCII bodies and non-raising handlers",
     [("request handling", "vtelem/classes/http_request_mapper.py:MapperAwareRequestHandler")])
prop("X05", "Only a request naming this application's id shuts the server down",
     "The server is shut down through its HTTP interface only by a shutdown request that provides an application id equal to the "
     "server's own; a missing or different id is answered with failure and the server keeps running.",
     "inputs", "all shutdown requests", "tests try one wrong id",
     [("shutdown handler", "vtelem/factories/telemetry_server.py:register_http_handlers")])
prop("X06", "Lookups never change what they look up",
     "Querying whether something exists or fetching it by name or id (registry items and ids, enum values, daemons, request handlers, "
     "channels, metrics, commands) never adds an entry or otherwise changes the table it looks in, and a missing entry is reported as missing.",
     "inputs histories", "all names and ids queried", "the inserted entry only matters in later operations",
     [("registry lookups", "vtelem/registry/__init__.py:Registry.get_id"), ("enum lookups", "vtelem/classes/user_enum.py:UserEnum.get_value")])

prop("X07", "A command does what its operation says to exactly what it names",
     "A channel command changes a channel only when its operation is set (to the value given, through the channel's enumeration when it has one), increment or decrement (by the value given, or one), and the channel changed is the one registered under the name or identifier given; a name and an identifier which disagree, an unknown channel, "
     "a channel that does not accept commands or an unknown operation is refused and changes nothing. A daemon command performs its operation once on each daemon named (on every known one when all are) and succeeds only if every one did; a udp command adds, removes or lists exactly the client given.",
     "inputs histories", "all commands, all registered channels, daemons and clients", "tests send a few commands to one target, so a wrong target, sign or default goes unseen",
     [("channel command", "vtelem/factories/telemetry_environment.py:create_channel_commander"), ("daemon command", "vtelem/factories/daemon_manager.py:create_daemon_manager_commander"), ("udp command", "vtelem/factories/udp_client_manager.py:create_udp_client_commander")])
prop("X08", "A command interface answers every message once, with its own result",
     "Every message received on a command websocket, text or binary, readable or not, is answered exactly once on the connection it came from, in the order received: one that is a command with that command's own result, executed once, any other with failure. "
     "An HTTP command request executes the command it names once and is answered with that execution's success and message, and with failure when it names none.",
     "inputs fault_sequences schedules", "all messages and requests, every result of executing them", "tests send well-formed commands and one malformed text",
     [("websocket commands", "vtelem/factories/websocket_daemon.py:commandable_websocket_daemon"), ("HTTP commands", "vtelem/factories/telemetry_server.py:register_http_handlers")])
prop("X09", "A request's handler gets everything the request sent and nothing else",
     "The handler of an HTTP request is given that request and a table made for it alone, holding what was posted as a form or as url-encoded arguments and the arguments of its query, and answering nothing for an argument which was not sent. "
     "A posted body is read at most once, exactly as many bytes as its content length says and never until the client leaves; of a posted form every part with a content disposition is handed on, in order.",
     "inputs histories", "all requests, bodies, lengths and earlier requests", "tests post well-formed data, one request at a time",
     [("request data", "vtelem/classes/http_request_mapper.py:MapperAwareRequestHandler"), ("posted data", "vtelem/classes/http_request_mapper.py:get_post_request_data")])
# ---------------------------------------------------------------- environment
prop("E01", "Registry names and ids are unique and never reassigned",
     "Adding a new name to a registry assigns it the next unused id, with name and data both stored under it; adding a name that exists returns failure and changes nothing. "
     "The check, the store and the id's allocation are one atomic step, and nothing ever removes or reassigns an id.",
     "histories schedules", "all sequences and interleavings of additions", "tests add a few names from one thread",
     [("registry", "vtelem/registry/__init__.py:Registry.add"), ("serializable enum registry", "vtelem/registry/enum_retry.py:EnumRegistry.add")])
prop("E02", "Adding a channel or enum either fully succeeds or leaves no trace",
     "Adding a channel, enum channel, metric or enum that is refused (name taken, unknown enum, invalid initial value) leaves no registration, "
     "framing entry or captured event behind; when it succeeds, the channel is registered and scheduled for emission exactly once under the returned id, in one atomic step.",
     "inputs schedules", "all refused and concurrent additions", "tests check the failure, not what it left behind",
     [("add channel", "vtelem/channel/environment.py:ChannelEnvironment.add_channel"),
      ("add enum channel", "vtelem/telemetry/environment.py:TelemetryEnvironment.add_enum_channel")])
prop("E03", "A channel only ever holds values valid for its type",
     "Setting a channel or typed value succeeds and stores the value only if it is of the type's value type and within its limits; otherwise it "
     "returns failure and nothing (value, time of last set, events) changes. Adding to a value is the same as setting the sum.",
     "inputs", "all values and types", "tests try a few values",
     [("set", "vtelem/classes/type_primitive.py:TypePrimitive.set")])
prop("E04", "A change event is captured exactly when the value changes",
     "A tracked channel reports a change once for each successful set that changes its value, carrying the previous value with its "
     "time and the new value with its time, and never for a set that fails or leaves the value as it was. The event is queued under that channel's own name "
     "without waiting, and is lost only when the event queue is full.",
     "histories", "all sequences of sets", "tests use few sets",
     [("change callback", "vtelem/classes/type_primitive.py:TypePrimitive.set"), ("channel events", "vtelem/channel/__init__.py:Channel")])
prop("E05", "Channels are emitted exactly when due",
     "A channel emits its current value when at least its rate has elapsed since its last emission, and only then updates the time of last "
     "emission; otherwise it emits nothing and changes nothing. Framing includes every due channel, whatever its value.",
     "inputs histories", "all times, rates and values (including zero and false)", "tests use truthy values and simple times",
     [("emit", "vtelem/channel/__init__.py:Channel.emit"), ("framing", "vtelem/channel/framer.py:ChannelFramer.build_data_frames")])
prop("E06", "A channel group reads and writes exactly the channels added to it",
     "Adding a channel to a group adds one channel named after the group to the environment, with the type or enum, rate and tracking given, and reports whether it was added; a refused one leaves the group as it was. "
     "Reading a group gives one entry per channel with its present value (an enum's as its name); writing sets exactly the channels named, each to its own value at the present time, and refuses other names. "
     "Using a group for the length of a block writes what the block left back once, however it ends. The group registry applies each operation to the group named.",
     "inputs histories fault_sequences", "all groups, channels, values and blocks", "tests use one group whose channels and blocks all succeed",
     [("groups", "vtelem/channel/group.py:ChannelGroup"), ("registry", "vtelem/channel/group_registry.py:ChannelGroupRegistry"), ("values", "vtelem/telemetry/environment.py:TelemetryEnvironment.get_enum_value")])

prop("E07", "Environment operations act on exactly the channel named, as asked",
     "Reading, setting, commanding or rating a channel or metric of an environment, by name or identifier, acts on exactly the channel registered under it, once, with the value given (an enum channel's own number for a name) and at the time given or, when none is asked for, the present one, and answers what the channel answered; "
     "a channel's command sets or adds as it is told. A channel, enum channel or metric is made with the name, type, rate, tracking, initial value and commandability given, metrics at the metrics rate, and is kept under its own identifier. "
     "An environment starts with exactly the channels, enumerations and settings given, and with its base metrics exactly when a metrics rate is given.",
     "inputs histories configurations", "all channels, metrics, values, times and settings", "tests set a few channels by identifier and look at few of the others",
     [("operations", "vtelem/channel/environment.py:ChannelEnvironment"), ("enum operations", "vtelem/telemetry/environment.py:TelemetryEnvironment"), ("commands", "vtelem/channel/__init__.py:Channel.command")])

# ---------------------------------------------------------------- streams
prop("S01", "Every frame reaches every stream and queue, failing streams excluded",
     "Each frame taken by the stream writer is written, with its length prefix, once to every registered stream and put once on every registered queue. "
     "A stream whose write fails or is short does not keep the others from being written, is removed, and has its error reported; the others stay.",
     "fault_sequences", "all combinations of failing streams", "tests fail one stream",
     [("fan-out", "vtelem/stream/writer.py:StreamWriter")])
prop("S02", "Streams, queues and clients are unregistered on every way out",
     "Every stream or queue registered with the writer for the duration of a connection, file or block is removed again however that use ends, and "
     "registering and removing keep all of the writer's tables in step: each id is new, removal forgets everything stored for it and calls its closer once unless told not to, and removing an "
     "unknown id reports failure and changes nothing.",
     "fault_sequences histories", "all exits of every use", "tests exit normally",
     [("writer tables", "vtelem/stream/writer.py:StreamWriter.remove_stream"), ("tcp clients", "vtelem/daemon/tcp_telemetry.py:TcpTelemetryHandler.handle")])
prop("S03", "Readers of a telemetry stream are told when it ends",
     "A file client which reaches the end of its file puts the end-of-stream marker on its output queue, exactly once and after its last frame, and at no other time; undecodable frames never appear as the marker. Removing a queue from the writer puts the marker "
     "on it after it is unregistered, exactly once, unless told not to; closing a manager's clients does so for each of them. Stopping a socket client closes it and puts the marker on its output queue even if the "
     "connection is already broken. A websocket connection's sender ends when it takes the marker.",
     "fault_sequences", "all ways a stream can end", "tests end streams cleanly",
     [("client close", "vtelem/client/socket.py:SocketClient"), ("queue removal", "vtelem/stream/writer.py:StreamWriter.remove_queue")])

# ---------------------------------------------------------------- applications
prop("A01", "A state machine changes state only after leaving and entering succeed",
     "A state machine's current state changes only to the state requested by the running state, only after that request was accepted by leaving the current state and then by "
     "entering the new one, each asked at most once per run; a refusal keeps the current state. A request for a state the machine does not have leaves and enters nothing. "
     "Running the state, leaving, entering and changing are one critical section per run, which reports the state that ran and the state that is current afterwards.",
     "histories schedules", "all accept/refuse combinations and concurrent runs", "tests cover a few combinations",
     [("transition", "vtelem/classes/state_machine.py:StateMachine.run")])
prop("T01", "Managed time advances by scaled real time for every follower",
     "Each tick advances the keeper's time by the real time elapsed since the previous tick multiplied by the scale, and then gives every registered follower "
     "the keeper's current time; a follower gets the current time when it is added. A negative scale is ignored and sleeping works at every scale.",
     "histories", "all scales and tick sequences", "tests use a few scales",
     [("keeper", "vtelem/classes/time_keeper.py:TimeKeeper")])
prop("G01", "A server runs exactly the services that are enabled",
     "A telemetry server can be constructed with any combination of its optional services enabled or disabled; each enabled one is registered with the "
     "daemon manager exactly once under its configured name and address and no disabled one is; the clock, telemetry, stream writer and command queue always are. Starting and stopping the server starts and stops its HTTP service only when that is enabled.",
     "configurations", "all combinations of enabled services", "tests only use the default combination",
     [("construction", "vtelem/telemetry/server.py:TelemetryServer")])
prop("G02", "Stopping a server and changing its speed always complete",
     "Stopping a telemetry server asks every daemon to stop, stops its HTTP service if that is enabled, closes its socket, removes its clients and releases whoever waits for it, "
     "each even if an earlier step reported failure; a server booted for a block is stopped once on every way out of the block; a wait for shutdown which times out or is interrupted stops the server. "
     "Changing the speed pauses the daemons around the change and resumes them on every way out, also when some daemon could not be paused.",
     "fault_sequences schedules", "all outcomes of every step", "tests stop servers all of whose daemons run",
     [("stop", "vtelem/telemetry/server.py:TelemetryServer.stop_all"), ("speed", "vtelem/telemetry/server.py:TelemetryServer.scale_speed"),
      ("block", "vtelem/telemetry/server.py:TelemetryServer.booted")])
prop("O01", "Reporting is optional: everything works without an environment or metrics",
     "Adding, setting and rating metrics of an environment whose metrics are off does nothing and never fails, and neither does setting a metric that is not registered. A daemon, queue, state or state machine made without an environment "
     "never uses one: only components which frame or decode an environment's own channels need it.",
     "configurations", "every operation with metrics or the environment absent", "tests nearly always provide both",
     [("metrics", "vtelem/channel/environment.py:ChannelEnvironment.set_metric"), ("enum metrics", "vtelem/telemetry/environment.py:TelemetryEnvironment.set_enum_metric"),
      ("daemons", "vtelem/daemon/__init__.py:DaemonBase.set_env_metric")])

# ---------------------------------------------------------------- bookkeeping and description
prop("J02", "Describing a registry gives everything it holds, whatever it holds",
     "Every registry can describe itself as one JSON text: its whole table, taken under its lock, with every entry it may hold converted to JSON data by its encoder and each named value made from the attribute of that name. "
     "Asking a running application for its types or its registries returns the description of every registry of its environment.",
     "configurations histories", "every registry class and every kind of item it can hold", "tests describe only a few registries, most of them empty or without awkward items",
     [("describe", "vtelem/registry/__init__.py:Registry.describe"), ("group registry", "vtelem/channel/group_registry.py:ChannelGroupRegistry"), ("requests", "vtelem/telemetry/server.py:TelemetryServer")])
prop("J01", "A serializable object survives its JSON form and satisfies its schema",
     "Writing a serializable object (type registry, channel framer data, user enumeration, registry) as JSON and reading it with its class gives an equal object of the same class: the same data, with integer keys restored, the same parameters, and the schemas of its loader. "
     "Construction runs the class's own initialisation and then validates against the object's schema or that of its class; the shipped schemas accept every object the library itself makes. An enumeration registry read back answers every lookup as the one written and continues numbering after its highest identifier.",
     "inputs configurations", "every way of writing, reading and constructing a serializable object, every shipped schema with every class it describes, every enumeration the library makes", "tests round-trip a few objects, without the loader's schemas",
     [("serializable", "vtelem/classes/serdes.py:Serializable"), ("user enum", "vtelem/classes/user_enum.py:UserEnum"), ("enum registry", "vtelem/registry/enum_retry.py:EnumRegistry")])
prop("C01", "A server started from the command line is the one its options describe",
     "Each service listens on the port its own option gives, on the address of the interface named (any address when none is); tick length, telemetry and metrics rates, application identifier, time scale and uptime are those of their options; the server is started once, scaled and waited for. "
     "The program parses exactly the arguments given, returns the server's result or the code of the exit requested, and whenever it returns it is back in the directory it was started from.",
     "inputs configurations", "all argument lists", "tests start the program with few options, and on ports nobody checks",
     [("options", "vtelem/app.py:entry"), ("program", "vtelem/entry.py:main")])
prop("C02", "A client reads the stream of exactly the peer it was made for",
     "A client made by a TCP or websocket server, by a file or by a UDP client manager uses the address, file or port that source really has, the server's channel registry and application identifier, the size limit asked for and the queue handed out with it; "
     "a socket client connects, and connects again once its socket is closed, to the host it was given. Servers listen on the address given, or any when none is, and the address of a websocket server names the port it listens on.",
     "configurations histories", "all addresses, including port zero, and any number of restarts", "tests use one local address and mostly fixed ports",
     [("tcp server", "vtelem/daemon/tcp_telemetry.py:TcpTelemetryDaemon"), ("websocket server", "vtelem/daemon/websocket.py:WebsocketDaemon"), ("tcp client", "vtelem/client/tcp.py:TcpClient"),
      ("udp client", "vtelem/client/udp.py:UdpClient"), ("websocket client", "vtelem/client/websocket.py:WebsocketClient")])
prop("C03", "A client decodes everything it receives, starting at a frame boundary",
     "Whatever a client reads is cut into frames once, in order and by the client's own size limit, and every frame cut out is handed on for decoding. After reconnecting, a client starts at a frame boundary: nothing left of an unfinished frame of the closed connection is put in front of the new one; "
     "while a connection goes on, the part of a frame already read is kept. A file client started again continues where it stopped, with the same file and limit.",
     "histories schedules", "every sequence of reads, timeouts, stops and restarts", "tests restart clients between whole frames only",
     [("socket clients", "vtelem/client/socket.py:SocketClient.run"), ("websocket client", "vtelem/client/websocket.py:WebsocketClient"), ("file client", "vtelem/client/file.py:FileClient.run")])
prop("G03", "Everything a server runs shares its clock and data, applications included",
     "An application registered with a server runs under its own name at its own rate, follows the server's clock, reports to the server's telemetry and depends on it; its setup and each cycle get the server's channel groups and one data object that belongs to it alone. Registering answers whether it was added, "
     "starts it exactly when it was and the server has been started, and touches no other daemon. Every service of a server follows the server's clock, reports to its telemetry and takes frames from its writer, and the command and HTTP interfaces act on the server's own objects. "
     "Any daemon given a keeper is among its followers once, and sleeps and tells time by it.",
     "configurations histories", "all services enabled or not, registrations before and after the start, names taken or not", "tests register one application",
     [("registration", "vtelem/telemetry/server.py:TelemetryServer.register_application"), ("construction", "vtelem/telemetry/server.py:TelemetryServer"), ("daemons", "vtelem/daemon/__init__.py:DaemonBase")])
prop("G04", "A service is announced where it listens and closed once, when not serving",
     "On a server's first start, and never again, each HTTP or websocket service that is served is announced once in the registry of services, under its own name and with the addresses its sockets are bound to. An HTTP server is served unless it was closed, "
     "behind TLS exactly when that was set up; its socket is closed at most once, only while the daemon is idle, closing answers whether it did, and serve() closes it at the end. TLS is set up only while idle, with the given certificate and key, and not at all "
     "when they cannot be read. The base URL names the bound address and the protocol really served. A websocket server is bound once, to its own address.",
     "histories", "all sequences of starting, stopping, closing and TLS set-up", "tests start each service once",
     [("http", "vtelem/daemon/http.py:HttpDaemon"), ("websocket", "vtelem/daemon/websocket.py:WebsocketDaemon"), ("first start", "vtelem/telemetry/server.py:TelemetryServer.start_all")])
prop("P01", "Loading a data cache is all or nothing, and what is written is what is held",
     "Loading a directory merges all it decodes into what is held exactly once: loading it again changes nothing, and a load that fails neither changes the data nor marks the directory as loaded. Writing stores all the data held in the cache's own directory, and cleaning forgets all of it, "
     "so that nothing loaded before is written again.",
     "histories fault_sequences", "all sequences of loads, writes and cleans, with failures", "tests load valid directories",
     [("data cache", "vtelem/classes/data_cache.py:DataCache")])
prop("U01", "User enumerations map names and values both ways",
     "An enumeration made from an enum class holds exactly one entry per member, under the member's lower-cased name and value, and its name and value lookups are inverse; names are matched regardless of case and an unknown name or value is an error, never some other entry. "
     "A channel or metric of an enumeration always converts names and values with the enumeration named when that very channel was added, including its initial value and commands; exporting enumerations records for every one its own type.",
     "inputs configurations histories", "every enum class, every enumeration, every enum channel and metric operation", "tests use one or two enumerations, so a lookup in the wrong one still answers",
     [("user enum", "vtelem/classes/user_enum.py:UserEnum"), ("from enum", "vtelem/classes/user_enum.py:from_enum"), ("enum channels", "vtelem/telemetry/environment.py:TelemetryEnvironment")])
prop("Q01", "Published counts match what actually happened",
     "A counter the library publishes changes by exactly the number of things that happened, on success and failure alike: queue elements and totals, a daemon's starts, stops, errors, pauses and counts, channels added, events captured and emitted, state attempts, "
     "successes, failures and transitions, streams and queues added and removed, commands and their outcomes, tcp clients. An element is counted no later than it becomes visible, and counts of a daemon are published in the order they change.",
     "histories fault_sequences schedules", "every path, normal or exceptional, of every function that counts", "tests read counters after successful runs in one thread",
     [("queue counts", "vtelem/classes/metered_queue.py:MeteredQueue"), ("daemon counts", "vtelem/daemon/__init__.py:DaemonBase.increment_metric"), ("stream counts", "vtelem/stream/writer.py:StreamWriter.add_stream"),
      ("dispatch counts", "vtelem/channel/environment.py:ChannelEnvironment.dispatch")])
prop("T02", "A periodic daemon works once per cycle and sleeps what is left of it",
     "Each cycle of a periodic daemon that is not paused runs its task once with the arguments it was started with, reads its rate anew, and then either sleeps the rate less the time the task took or, when nothing is left, counts one overrun and tells the overrun handler. "
     "A paused cycle sleeps and runs nothing; the initialisation runs once, before the first cycle; a telemetry daemon's task dispatches once, at the daemon's time.",
     "histories schedules", "every sequence of cycles, state changes, rates and task durations", "tests observe a few cycles of real time with wide tolerances",
     [("periodic loop", "vtelem/daemon/synchronous.py:Daemon.run"), ("telemetry task", "vtelem/daemon/telemetry.py:TelemetryDaemon")])

# ---------------------------------------------------------------- outside the reach of this technique
prop("N01", "A periodic daemon keeps its rate and samples are punctual",
     "Over any window, a running periodic daemon whose task takes less than its period runs it once per period, and a channel's samples are emitted within one period of being due.",
     "schedules", "all task durations, timer accuracies and loads", "tests measure wall-clock time with wide tolerances",
     [("periodic loop", "vtelem/daemon/synchronous.py:Daemon.run")],
     na="Quantifies over run-time durations (task, sleep, scheduler); no static bound exists for them. The structure of a cycle is decided by T02.")
prop("N02", "Frames sized to a discovered path limit are delivered unfragmented",
     "A frame no larger than the limit discovered for a destination reaches it in one datagram.",
     "inputs", "all networks and destinations", "tests use the loopback interface only",
     [("discovery", "vtelem/mtu.py:discover_mtu")],
     na="Depends on the kernel and the network between the hosts; the source cannot decide it. That frames stay within the limit they are given is W04.")
prop("N03", "Stopping a running application completes within a bounded time",
     "After a stop request every daemon becomes idle within its time limit, whatever its task, clients or peers are doing.",
     "schedules fault_sequences", "all tasks, clients and peers", "tests use cooperative tasks",
     [("stop", "vtelem/daemon/__init__.py:DaemonBase.stop"), ("manager", "vtelem/daemon/manager.py:DaemonManager")],
     na="Termination of user tasks, blocking socket calls and fair scheduling are run-time quantities. That every daemon kind has a way to be woken and re-checks its state is decided by D02 and D05.")
prop("N04", "Channel values decode to the same floating-point number",
     "A float emitted on one host is the same float after decoding on another, including rounding to the declared width.",
     "inputs", "all floating-point values and platforms", "tests use a few values",
     [("primitives", "vtelem/classes/type_primitive.py:TypePrimitive")],
     na="Rounding is done by struct in the interpreter, outside the source analysed. That both directions use the same format for a type is decided by W01 and W03.")

if __name__ == "__main__":
    import sys
    sys.path.insert(0, ROOT)
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    rules = {os.path.splitext(f)[0].upper() for f in os.listdir(os.path.join(ROOT, "rules")) if f.endswith(".py") and f[0] != "_"}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
        for d, *_ in P:
            out.write(json.dumps(d) + "\n")
    try:
        from notes import NOTES
    except ImportError:
        NOTES = {}
    checks, nas = [], []
    for d, tech, note, na in P:
        pid = d["id"]
        if pid in rules and not na:
            t, n = NOTES.get(pid, (tech, note))
            checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                           "technique": t or "static: path-sensitive value-flow analysis over the resolved syntax tree",
                           "level": "other",
                           "level_note": n or "Every path of the analysed functions up to the stated inlining and loop-unfolding bounds; calls that leave "
                                              "the repository are modelled, not analysed; values are compared by origin, with no solver."})
        else:
            nas.append({"property": pid, "reason": na or "no rule built yet"})
    m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py", "checks": checks, "not_applicable": nas,
         "notes": "Static analysis only: vsa/ is the engine, rules/ one rule module per property. Nothing of /repo is imported or run."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as out:
        json.dump(m, out, indent=1)
        out.write("\n")
    print(len(checks), "checks", len(nas), "not claimed")
