DFS = "stateless model checking of the real code: "
SCHED = "stateless model checking of the real code with partial-order reduction: "

prop("C01", "Record operations act on exactly the selected properties",
     "Copying, assigning, merging, swapping, moving, clearing, comparing, ordering and differencing records act on exactly the properties selected and valid: every selected property ends up with the value and validity the operation's definition gives it, and every other property keeps its own. Compiled record types, the same types handled generically, and the same types described at run time behave identically. No operation reads or writes outside the records, leaks or uses a destroyed value.",
     ["inputs", "histories"], "all pairs of record values over small property domains, all included sets, all operation sequences up to a depth, on all three kinds of records",
     "the tests compare a handful of hand written records of two types; the interesting combinations of validity, selection, nesting and aliasing are products of many choices",
     [L + "type/Struct.h", L + "type/StaticStruct.h", L + "type/DynamicStruct.h", L + "type/StructDescriptor.h", S + "type/StructDescriptor.cpp", L + "type/Property.h", L + "type/PropertyIterator.h"],
     [("set algebra of valid and selected properties before visiting values", S + "type/StructDescriptor.cpp"), ("typed fast paths mirroring the generic operations", L + "type/StaticStruct.h")],
     [("property area", "which properties are valid, and their values", L + "type/PropertyArea.h")], ["public record operations", "property reads"],
     DFS + "exhaustive enumeration of record values, selections and operation sequences, compared step by step with a reference model",
     note="bounded: at most three properties vary at a time, two to five values per property")

prop("C02", "Binary encoding carries records exactly and is understood across versions",
     "Encoding a record in either binary format and decoding it gives the encoder's valid selected properties with exactly their values and leaves every other property of the target alone; the bytes are the documented wire format, and the same for compiled and run-time described types. A decoder passes over properties it does not know, wherever they stand and whatever data item they hold, without disturbing the known ones. Several values written one after another are read back one after another.",
     ["inputs", "configurations"], "all boundary values of every property type, all property subsets up to a bound, all kinds of unknown data items at every position, both formats, typed and run-time described on either side",
     "the tests encode a few records of fixed types and compare bytes; head widths, sizes, selections and version skew multiply",
     [L + "serialization/CborSerializer.h", L + "serialization/ExperimentalCborSerializer.h", L + "serialization/formats/CborReader.h", L + "serialization/formats/CborWriter.h", L + "type/TypeVisitor.h"],
     [("shortest heads by value", L + "serialization/formats/CborWriter.h"), ("unknown tags are skipped item by item", L + "serialization/formats/CborReader.h")],
     [], ["encoded bytes", "decoded record"],
     DFS + "exhaustive enumeration of values, selections and unknown items, judged by an independent encoder and decoder of the wire format",
     note="bounded domains of values per type; tagged and indefinite-length items are not offered")

prop("C03", "Text formats carry records exactly and every reader understands every writer",
     "A record written as JSON, by either JSON implementation and in every style, is a well-formed document that says exactly which selected properties are valid with which values and marks the others that were asked for as null; the readable string format is read back the same way. Reading gives back exactly the record, replaces earlier values, invalidates properties given as null, leaves properties that are not named alone and passes over unknown members. All writers and readers of one language understand each other, for compiled and run-time described types.",
     ["inputs", "configurations"], "all boundary values of every property type including hostile strings and extreme numbers, all property subsets up to a bound, every style, every writer with every reader of its language",
     "the tests compare a few expected texts; escaping, precision, nesting in arrays and reading over existing records are left to chance",
     [L + "serialization/TextSerializer.h", L + "serialization/RapidJsonSerializer.h", L + "serialization/formats/TextReader.h", L + "serialization/formats/TextWriter.h", L + "serialization/formats/RapidJsonReader.h", L + "serialization/formats/RapidJsonWriter.h", L + "serialization/formats/TextFormat.h"],
     [("escape table shared by reader and writer", L + "serialization/formats/TextFormat.h"), ("separators and nesting state", L + "serialization/formats/TextWriter.h")],
     [], ["written text", "record read back"],
     DFS + "exhaustive enumeration of values, selections, styles and writer/reader pairs, judged by an independent JSON parser and by agreement of all readers",
     note="floats are finite; points in time of the readable format are whole milliseconds of four digit years; JSON documents offered to the readers have no white space before a colon")

prop("C04", "Decoders are safe on every input and notice damage",
     "Whatever bytes or text a decoder is given, it reads nothing outside the input, ends, allocates in proportion to the input, and either reports an error or yields a well formed record that can be written and read back unchanged. Every proper prefix of an encoding is reported as an error. Compiled and run-time described targets accept the same inputs with the same result, and the target record stays usable after an error.",
     ["inputs", "fault_sequences"], "all byte strings up to a length over the alphabet of item heads, all truncations and single byte changes of representative encodings, all token sequences up to a length, nesting and sizes far beyond the input; every format",
     "the tests feed a few malformed inputs; the inputs a peer can send are unbounded",
     [L + "serialization/formats/CborReader.h", L + "serialization/formats/TextReader.h", L + "serialization/formats/RapidJsonReader.h", L + "serialization/CborSerializer.h", L + "serialization/ExperimentalCborSerializer.h", L + "serialization/TextSerializer.h"],
     [("every read checks the bytes available", L + "serialization/formats/CborReader.h"), ("tokens are only consumed after a match", L + "serialization/formats/TextReader.h")],
     [], ["exceptions", "decoded record", "address and undefined-behaviour checking", "allocation sizes"],
     DFS + "exhaustive enumeration of short inputs and of single faults in encodings under address and undefined-behaviour checking",
     note="inputs are bounded in length; two changed bytes at a time only in the thorough tier")

prop("C05", "The container is the history's outcome",
     "After any history of creates, updates, removes and clears the container holds exactly the instances the history leaves, one per key, in key order, each with exactly the values the last changes gave it: an update changes what its attributes name and is set, invalidates what they name and is not set, and leaves the rest and the key alone. Its clone information says who created and last changed it, when, and by what kind of operation. Lookups, iteration, copies and memory usage agree with the content, for compiled and run-time described types and for any number and kind of keys.",
     ["histories", "inputs"], "all operation histories up to a depth over an alphabet of keys, values and attribute sets, seven record shapes, typed and generic containers",
     "the tests walk through a few fixed histories of one type; what a container holds depends on the whole history",
     [L + "Container.h", S + "Container.cpp", L + "type/AnyStruct.h"],
     [("ordered map keyed by key properties, updated in place through node handles", S + "Container.cpp")],
     [("m_instances", "instances with clone information", L + "Container.h")], ["container content", "clone information", "returned nodes"],
     DFS + "every operation history up to the depth is executed on the container and on a reference map, and the two are compared after every step",
     note="bounded depth and alphabet; instances have all their keys set")

prop("C06", "Dispatch reaches exactly the current subscribers, whatever they do meanwhile",
     "Every published event reaches every handler subscribed at that time exactly once, with the header, transmitted and updated instance and kind of operation that belong to it, and never a handler whose subscription has ended. That holds whatever handlers do meanwhile: end their own or others' subscriptions, subscribe further ones, publish or remove further instances, clear the transceiver or throw. A new subscriber first receives the cached instances; a subscription that fails leaves nothing behind. The same goes for new type handlers. Subscriptions can be moved, discarded or dropped at any time, also after their transceiver was moved, cleared or destroyed.",
     ["schedules", "histories"], "all programs of up to three reacting handlers of three kinds with 21 reactions, all initial contents and stimuli up to a bound, all reactions during a replay, all ends of a subscription",
     "the tests unsubscribe and publish from straight line code and from a single handler; reentrancy multiplies handlers, reactions and events",
     [L + "Dispatcher.h", S + "Dispatcher.cpp", L + "Subscription.h", S + "Subscription.cpp", L + "Transceiver.h", S + "Transceiver.cpp", L + "Event.h", S + "Event.cpp", S + "HostTransceiver.cpp"],
     [("handlers and removed instances are kept until the outermost dispatch ends", S + "Dispatcher.cpp"), ("subscriptions find their transceiver through a weak reference", L + "Transceiver.h")],
     [("handler pools", "subscribed handlers by type", L + "Dispatcher.h")], ["handler calls", "container content"],
     DFS + "every program of handlers, reactions and stimuli up to the bounds is executed and compared call by call with a reference dispatcher, under address checking",
     note="up to three handlers, one reaction each")

prop("C07", "A connection follows the protocol and fails closed",
     "A connection in either role goes through connecting, early subscribe and connected to closed, each at most once and only in that order, exactly as the handshake messages of its peer entitle it: it answers each expected message as the protocol says and treats everything else - unexpected, incomplete or undecodable messages, instances before the handshake or without their keys, a rejected connection - as an error. Every connection that was started ends with exactly one transition to closed, which says whether it was an error; an end that was connected tells its peer. Once it is closed nothing more is delivered. It hands instances to its owner in order, once, and with the header the role prescribes. No misbehaving peer, broken transport or ill behaved handler makes it do anything else.",
     ["schedules", "fault_sequences", "histories"], "all sequences of 29 messages, faults and local calls up to a depth after every prefix of the handshake, both roles, four kinds of authentication, six receive and three transition handlers, a transport breaking at any transmission",
     "the tests walk the regular handshake and a few deviations; what a peer sends, and when the transport fails, is not under our control",
     [L + "Connection.h", S + "Connection.cpp", L + "io/Channel.h", S + "io/Channel.cpp"],
     [("one expected system message at a time", S + "Connection.cpp"), ("every failure ends in closed", S + "Connection.cpp"), ("receiving goes on only while the handler says so", S + "io/Channel.cpp")],
     [("m_connectionState", "state of the protocol", L + "Connection.h"), ("m_expectedSystemType", "the message expected next", L + "Connection.h")], ["transitions", "received transmissions", "sent messages"],
     DFS + "every message and fault sequence up to the depth is given to the real connection and compared step by step with a reference of the protocol",
     note="depth 3 after the handshake prefix in the quick tier, 4 in the thorough tier")

prop("C08", "Byte streams carry messages unchanged in any division",
     "Over a byte stream, in both transmission formats, the receiver is given exactly the messages that were transmitted - headers, values, order - each once and as soon as its last byte has arrived, however the stream divides reads and writes, whatever the messages' sizes, and whether or not payloads are shared between peers. A receiver that stops, throws, replies or destroys the channel at a message gets nothing more than it asked for. The end or failure of the stream, and bytes that are no message, are reported once, after which nothing is delivered; sizes a peer merely declares cost nothing. A message that cannot be encoded is refused without a trace in the stream, and so is everything beyond a bounded backlog for a peer that does not read. A channel that is let go still writes what it accepted.",
     ["schedules", "fault_sequences", "histories", "inputs"], "all divisions of a stream by up to two cuts, all portions around the buffers' sizes, all sequences of transmissions and partial, failed or outlived writes up to a depth, every fault at every byte",
     "the tests use local channels; how a transport divides what it carries depends on timing and load",
     [L + "io/channels/AsyncStreamChannel.h", L + "io/Channel.h", S + "io/Channel.cpp", L + "io/Transmission.h"],
     [("at most one read and one write under way; the write buffer is only swapped on completion", L + "io/channels/AsyncStreamChannel.h")],
     [("m_readBuffer, m_writeBuffer", "buffered stream", L + "io/channels/AsyncStreamChannel.h"), ("m_payloadCache", "last payload, shared between peers", L + "io/channels/AsyncStreamChannel.h")], ["received transmissions", "written bytes", "reported errors"],
     DFS + "the real channel template runs on a stream whose operations complete as the exploration decides; bytes are judged by an independent splitter and decoder",
     note="up to two cuts (thorough: three), write histories of depth 5 (thorough: 6)")

prop("C09", "Host and guests converge",
     "When guests and the host have published and removed whatever they wanted and all messages have arrived, every guest that joined a cached type holds exactly the instances the host holds, with the same values, whatever the interleaving of operations and deliveries, whoever wrote, and whenever a guest joined. On the way every cache and every event follows from the messages received so far. This includes partial publications, unset properties, and publications that a handler makes in reaction to an event.",
     ["schedules", "histories"], "all interleavings of scripts of up to three operations for two or three guests and the host with all deliveries between them, all scripts over the alphabet",
     "the tests publish once and wait until it arrived; whether replicas agree depends on the order in which concurrent changes, joins and deliveries happen",
     [L + "HostTransceiver.h", S + "HostTransceiver.cpp", L + "GuestTransceiver.h", S + "GuestTransceiver.cpp", S + "Dispatcher.cpp", S + "Container.cpp"],
     [("the host forwards every transmission to all members of the group, the sender included; guests apply only what the host sends", S + "HostTransceiver.cpp")],
     [("m_groups", "connections by the type they joined", L + "HostTransceiver.h"), ("m_pendingTransmissions", "what is to be forwarded, in the order of the cache", L + "HostTransceiver.h")], ["container content", "events"],
     SCHED + "real transceivers on simulated channels execute every interleaving in lockstep with a reference of the network",
     note="scripts of at most three operations; persistent and sleep sets skip interleavings that differ only in the order of steps at different ends")

prop("C10", "Joining yields a counted snapshot and then every change",
     "A guest that joins a cached type the host knows is sent every instance the host then holds, each with all its properties and the number of those still to come, followed by the end marker, and from then on every change, in the host's order, once. Types that are not cached or not known yield only what is published later. A guest joins a type once, however many handlers it has, and later handlers are served from its own cache. Types given when opening are joined before the connection is reported as established, and the handshake ends after their snapshots. Leaving ends the flow; joining again starts it again.",
     ["schedules", "histories"], "all preload sets, contents and subscription scripts up to the bounds in all interleavings with concurrent changes; all membership message sequences up to a depth",
     "a test joins at a quiet moment; the snapshot has to fit together with changes that are made at the same time",
     [S + "HostTransceiver.cpp", S + "GuestTransceiver.cpp", S + "Transceiver.cpp", S + "Connection.cpp"],
     [("join transmits the container and the marker before anything else is processed", S + "HostTransceiver.cpp")],
     [("m_groups", "connections by the type they joined", L + "HostTransceiver.h"), ("m_joinedGroups", "types a guest has joined", L + "GuestTransceiver.h")], ["messages sent by the host", "messages sent by guests", "events"],
     SCHED + "every message between the real transceivers is compared with what the reference host and guests send",
     note="up to three instances, two concurrent changes")

prop("C11", "A guest's end is complete and harmless",
     "However and whenever a guest's connection ends - by itself, by the transport, because a transmission to it fails, during the handshake, or several at once - the host notices once, removes it from all groups, withdraws exactly the cleanup instances it was the last to write, and tells everybody else; the others' connections, caches and further changes are not disturbed, whatever the host's handlers do in reaction. A guest can open a new connection afterwards, with an identity of its own, and join and publish as before.",
     ["schedules", "crash_points", "fault_sequences"], "the end of a guest at every point of every interleaving; a transport that fails from any transmission on; two failing at once; all reactions of a host handler in a list",
     "the tests close an idle connection; the interesting moments are in the middle of distribution, of a snapshot and of another guest's end",
     [S + "HostTransceiver.cpp", S + "GuestTransceiver.cpp", S + "Connection.cpp"],
     [("dirty connections are failed after the round", S + "HostTransceiver.cpp"), ("cleanup types are withdrawn on closing", S + "HostTransceiver.cpp")],
     [("m_guestConnections", "owned connections", L + "HostTransceiver.h"), ("lastUpdateFrom", "owner of an instance", L + "Container.h")], ["transitions", "removals", "messages to the others"],
     SCHED + "ends and transport failures are steps of the exploration like any other",
     note="an instance removed while a guest was away stays in the guest's cache after it reconnects (known finding)")

prop("C12", "Headers tell the truth about who and when",
     "The sender of every event is the guest that published it, or the host, whatever its header claimed; isFromMyself is true exactly at the publisher; the sent time is the publisher's, and is added if missing; the server's time is the host's. Snapshots name the last writer and its time. Clone information names who created and who last changed an instance, when, and how. Identities are never used twice, and instances keep those of connections that are gone.",
     ["schedules", "inputs"], "all interleavings of two guests, the host, late and reconnecting guests over an alphabet of changes; all sequences of headers with false claims",
     "the tests look at one header of one event",
     [S + "Connection.cpp", S + "HostTransceiver.cpp", S + "Container.cpp", S + "Dispatcher.cpp", S + "Event.cpp"],
     [("the host stamps sender and server time on everything it receives", S + "Connection.cpp")],
     [("header.sender, serverSentTime, isFromMyself", "provenance", S + "Connection.cpp")], ["headers", "clone information"],
     SCHED + "every header and every instance's clone information is compared with the reference after every step",
     note="fromCache of a guest's own header is forwarded unchanged and outside of the property")

prop("C13", "Types travel ahead of their first use and are rebuilt as they were",
     "Whatever sequence of instances and types is transmitted, a channel describes each type it needs once, before anything that uses it, dependencies first, and never describes internal types. What is rebuilt from a description has the same name, flags, property names, tags, keys and types in the same order, and its records hold, copy, compare and serialize values like the original's. A type already known is left as it is. A description that makes no sense - missing fields, unknown or malformed type names, tags that do not fit or repeat, names of other kinds of types - is refused, ends only its own channel, and registers nothing of that name. A request for descriptions is answered with exactly the matching types known, then the end marker; those who asked also receive later types, dependencies first.",
     ["inputs", "histories"], "all sequences of transmissions of eight types both ways up to a depth, all subsets of types known to the receiver, all descriptions over an alphabet of fields, all request sequences up to a depth",
     "the tests exchange two well formed types once; the layout of rebuilt types and the reaction to impossible ones are only seen on combinations",
     [S + "io/DescriptorConverter.cpp", S + "io/Channel.cpp", S + "HostTransceiver.cpp", S + "type/Registry.cpp", S + "type/DynamicStruct.cpp"],
     [("dependencies are exported depth first, once", S + "io/Channel.cpp"), ("property offsets and sizes are computed from the description", S + "io/DescriptorConverter.cpp")],
     [("m_sharedTypeDescriptors", "types already exchanged", L + "io/Channel.h"), ("m_types", "types known by name", L + "type/Registry.h")], ["messages sent", "rebuilt descriptors", "errors"],
     DFS + "every message is decoded by an independent CBOR reader and compared with the descriptors, rebuilt types are exercised under address and undefined behaviour checking",
     note="a type name means the same type everywhere; a passed on instance presupposes that the receiver has the type")

prop("C15", "One peer's misbehaviour is that peer's problem",
     "Whatever a guest sends - malformed headers and bodies, instances without keys or attributes, unknown or impossible types, memberships and requests that make no sense, messages at the wrong time - and however its transport breaks, alone or with others: the host keeps running, the other guests stay connected, see each other's changes completely and in order and nothing else of it, their caches agree with the host's, new guests can join and are served, and the end of the misbehaving connection is reported once. A guest whose host misbehaves carries on or reports the end once, and can connect elsewhere.",
     ["inputs", "histories", "fault_sequences"], "some eighty misbehaviours at every point of a history in three phases of the connection; all ordered pairs from one or two peers; transports that break anywhere; all of them towards a guest",
     "a test sends one bad message to one connection and looks at that connection; the damage is done at the others",
     [S + "Connection.cpp", S + "HostTransceiver.cpp", S + "GuestTransceiver.cpp", S + "Transceiver.cpp", S + "io/Channel.cpp", S + "Dispatcher.cpp"],
     [("required properties and attributes are asserted before an instance is passed on", S + "Connection.cpp"), ("errors while passing on are blamed on the receiver's connection only", S + "HostTransceiver.cpp")],
     [("m_groups", "connections by the type they joined", L + "HostTransceiver.h"), ("m_guestConnections", "owned connections", L + "HostTransceiver.h")], ["events", "transitions", "cache contents", "messages"],
     SCHED + "the uninvolved guests' events are compared with what they published themselves, the caches with each other",
     note="a misbehaving peer that is the first to define a name, or that changes instances it may change, is outside")

prop("C14", "Only those the rules admit get in",
     "With the authentication manager set, a client is admitted exactly if the first rule that applies to its address and name - lowest priority number first, a rule with a secret only if the client proves to know it - says so, or no rule decides and the default, accepting if there is none, says so; local socket clients always. The client is challenged with a nonce of its own if the first accepting rule for its address has a secret. A response proves the secret for that nonce, client nonce and name only; replayed, altered, truncated, over-long or malformed responses prove nothing and harm nothing. Rules and default follow every publication, update and removal, before or after the manager was set. Who is not admitted is told so and disconnected, and nothing it sent, earlier or later, has any effect, nor is it sent anything.",
     ["inputs", "histories"], "all sets of up to two rules over an alphabet with all defaults, addresses, names and responses; all histories of rule changes up to a depth with a manager that appears at any point; all sequences of handshakes of up to three peers; responses of every length",
     "the tests check one rule at a time; who gets in depends on the combination of rules, their history, address forms and what the peer makes up",
     [S + "io/auth/LegacyAuthManager.cpp", S + "io/auth/Digest.cpp", S + "io/auth/Nonce.cpp", S + "tools/IpNetwork.cpp", S + "Connection.cpp"],
     [("rules are considered in the order of priority, first decision wins", S + "io/auth/LegacyAuthManager.cpp"), ("the response is the hash of the hashed credentials, the nonce and the client nonce", S + "io/auth/Digest.cpp")],
     [("m_rules", "rules by priority", L + "io/auth/LegacyAuthManager.h"), ("m_nonce", "the challenge of a connection", L + "Connection.h")], ["verdicts", "messages to the peer", "transitions"],
     DFS + "every verdict is compared with a reference evaluation of the rules that compares addresses bit by bit and composes the digest from its description",
     note="SHA-256 itself is taken from the same stand-in on both sides (the real one is not in this sandbox); the unpredictability of nonces is not decided, only that they do not repeat")

prop("C16", "Every transport carries the same, and one bad caller closes no door",
     "Guests see the same events, caches and ends whichever transport - in-process, TCP, Unix domain socket, WebSocket, in any mix - connects them and the others to the host: every instance arrives whole, once and in the order of its writer, of any size and number, and what was published before a connection ends arrives before the end does. Every end is noticed exactly once at both sides. A listener goes on admitting guests whoever calls: callers that say nothing, nonsense, half a handshake, or leave at any time, callers in any number and order, and guests that stop reading neither block nor end the service of the others. Rules of admission see the same address of a client whichever network transport it uses, and a connection set up in the background succeeds or reports its failure once, however and whenever it is given up.",
     ["inputs", "histories", "fault_sequences"], "all pairs of six transports with all short scripts of changes, all values of the domains, sizes around all buffer boundaries, all ways to end, all sequences of ill-behaved callers up to a bound",
     "the tests run the transceivers over a scripted channel; the transports themselves are only exercised by hand",
     [S + "io/channels/TcpChannel.cpp", S + "io/channels/TcpListener.cpp", S + "io/channels/UdsListener.cpp", S + "io/channels/WebSocketChannel.cpp", S + "io/channels/WebSocketListener.cpp", S + "io/channels/LocalChannel.cpp", S + "io/channels/LocalListener.cpp", L + "io/channels/AsyncStreamChannel.h", S + "HostTransceiver.cpp"],
     [("a listener accepts the next caller when the last was accepted or failed", S + "io/Listener.cpp"), ("transmissions are queued and written in order", L + "io/channels/AsyncStreamChannel.h")],
     [("m_asyncAccepting", "whether a listener waits for a caller", L + "io/Listener.h"), ("m_listeners", "listeners of a host", L + "HostTransceiver.h")], ["events", "transitions", "cache contents"],
     DFS + "every execution runs a real host with real guests over real sockets and is compared with the same reference whatever the transport; ill-behaved callers are raw sockets",
     note="the kernel's and the event loop's timing is not enumerated, only the order of the calls; results are awaited")

prop("C17", "Texts of addresses, times and identifiers denote what they say",
     "The parts of an address are what its text says, and its text is made of its parts: whatever is set, replaced, removed, copied or moved, reading the text back gives the same parts, and everything else stays. Malformed texts are refused and leave the address as it was. Every duration, point in time and identifier is written as a text that reads back as the same value (points in time to the millisecond), and every text of a duration denotes the sum of its parts; other texts are refused.",
     ["inputs", "histories"], "all combinations of parts over an alphabet, all sequences of changes up to a depth, all texts over the structuring characters up to a length, grids of boundary values of durations and times",
     "the tests parse a handful of addresses and one or two times; addresses decide where a guest connects and which admission rule applies",
     [L + "tools/Uri.h", S + "tools/Uri.cpp", S + "io/Endpoint.cpp", L + "type/Chrono.h", S + "type/Chrono.cpp", S + "type/Uuid.cpp"],
     [("the parts are views into the text and are renewed on every change", L + "tools/Uri.h")],
     [("m_uriStr", "the text of an address", L + "tools/Uri.h")], ["parts", "texts", "errors"],
     DFS + "every result is compared with a reference that keeps the parts separately and computes times with integers")

prop("C18", "Timers, observers and promises call back exactly when they should",
     "A timer's handler is called once, not before its time is up and as soon as the loop runs after it; a periodic timer's once per period, on the grid of its start without drift, however late the loop is; timers in the order of their times. An observer's handler is called whenever its descriptor is readable and only then. Nobody is called after having been given up, assigned, removed or moved from, also by a handler that does so to itself or to another; a discarded timer or observer is called once or on as asked, without its owner. Durations of any length are honoured. When all is over the handlers are released and the loop runs out of work. Promises are kept in the order and the thread of the loop.",
     ["inputs", "histories", "schedules"], "all sequences of steps over several timers and observers up to a depth, all grids of periods and patterns of lateness, all magnitudes of durations",
     "the tests wait for one timer for some milliseconds; drift, lateness and handlers that change timers need controlled time and all orders",
     [L + "Timer.h", S + "Timer.cpp", L + "io/FdObserver.h", S + "io/FdObserver.cpp", L + "io/Io.h", S + "io/Io.cpp", L + "asio.h"],
     [("the next period is computed from the last expiry, not from now", L + "Timer.h"), ("handlers of cancelled waits return without calling back", L + "Timer.h")],
     [("m_timerData", "the wait of a timer and its handler", L + "Timer.h")], ["calls of handlers", "release of handlers", "emptiness of the loop"],
     DFS + "the clock is virtual, every call is compared with a reference agenda that holds due times",
     note="process wide deprecated functions for timers keep entries of one-shot timers until removed; not claimed")

prop("C19", "The daemon's account of its clients and itself is true",
     "Every connection to the daemon appears in its list of clients with its identity, name, whether it is running and its state; the list follows every change, and every guest that reads it sees the same. An entry of a client that is gone stays until a clean-up after which no living instance refers to it, and goes then; entries of clients that live, or whose instances are still there, are never removed. The daemon's status is published every second with its name, its start and the size of its cache. The daemon ends cleanly with guests connected.",
     ["histories", "inputs"], "all sequences of guests connecting, publishing, updating, removing, leaving and breaking off with time advancing, up to a depth",
     "no test covers the daemon; whether an entry may go depends on the history of all instances in all containers",
     ["bin/dotsd/src/DotsDaemon.cpp", S + "HostTransceiver.cpp", S + "Connection.cpp", S + "Container.cpp"],
     [("clients whose identity is in no clone information are removed every ten seconds", "bin/dotsd/src/DotsDaemon.cpp"), ("a client's entry is updated on each transition", "bin/dotsd/src/DotsDaemon.cpp")],
     [("m_daemonStatus", "what is published about the daemon", "bin/dotsd/src/DotsDaemon.h")], ["instances of DotsClient and DotsDaemonStatus"],
     DFS + "the real daemon runs under a virtual clock; lists are compared with a reference after every step")

prop("C20", "An application starts, runs and ends as asked, every time",
     "An application connects to the host named by its options, the environment or the default, in that order, with the name and secret given, and runs until it is asked to end, by itself, by a signal or by its host leaving; its result is the code asked for, or tells of failure. If it cannot connect - no host, a host that refuses, breaks off or speaks nonsense at any phase - it reports so and ends. Whatever way it ended, nothing of it is left: the next application in the process starts, connects and ends the same way.",
     ["histories", "fault_sequences", "inputs"], "all sequences of lives of applications over ways to name the host, fates of the host, ways to end",
     "no test covers applications; what one leaves behind shows in the next",
     [S + "Application.cpp", L + "Application.h", S + "GuestTransceiver.cpp", S + "io/Endpoint.cpp"],
     [("the loop runs until the connection is established or an error is known", S + "Application.cpp"), ("the global transceiver is set for the life of the application", S + "Application.cpp")],
     [("m_exitCode", "the result asked for", L + "Application.h"), ("m_guestConnectionError", "why the connection ended", L + "Application.h")], ["results", "events at the host", "global state"],
     DFS + "each life is compared with what its parameters call for; hosts are real or raw peers at real sockets",
     note="exit called before or after exec is not claimed, hosts that accept and stay silent block by design")

prop("C21", "The catalogue of types and the views of a record are exact",
     "A registry knows exactly the types registered and not deregistered, with those they depend on, first come first kept; every new type is announced once, after what it depends on, also while handlers register or remove types; which types it starts with follows its policy. Maps of descriptors and pools of containers find, by type and by name, exactly what was put in and not removed, also after copying and moving and among types of the same name. Every walk over the properties of a record or a pair of records - forwards, backwards, filtered, stepped back and forth, copied, assigned, exchanged - shows exactly the properties asked for in the order of the type with their values, and changes nothing; a property reached by tag, name or composed name, at any depth and whatever is there of the levels above, is read, assigned, reset and exchanged as itself. Sets of properties obey the laws of sets.",
     ["inputs", "histories"], "all histories of registrations and removals up to a depth, all scripts of moves of two iterators, all subsets of properties, all paths at all states",
     "the tests walk a record from begin to end once; exchanged iterators, twins of a name, absent intermediate levels and re-entrant handlers need all combinations",
     [S + "type/Registry.cpp", S + "type/DescriptorMap.cpp", S + "ContainerPool.cpp", L + "type/PropertyIterator.h", L + "type/PropertyPairIterator.h", L + "type/PropertyContainer.h", L + "type/ProxyProperty.h", L + "type/PropertyPath.h", L + "type/PropertySet.h", S + "type/StructDescriptor.cpp"],
     [("a type is entered, its dependencies are registered, then it is announced", S + "type/Registry.cpp"), ("the proxy of an iterator always shows the property at its position", L + "type/PropertyIterator.h")],
     [("m_types", "types by name", L + "type/Registry.h"), ("m_nameCache", "the container of a name", L + "ContainerPool.h")], ["results of lookups", "announcements", "properties shown", "records after changes"],
     DFS + "results are compared with sets, lists, maps and a model of records",
     note="iterators are not moved before the first or past the last property; the first or last property of an empty set is not asked for")

prop("C22", "A guest's and a host's calls do what they say, and a host serves who asks",
     "Publishing sends exactly one message with the keys and the selected properties, for removals marked as such; calls that cannot be served - publishing without keys or a type that only occurs inside others, publishing or subscribing anew without a connection, opening twice - fail and change nothing; a group is joined once per connection by the first subscription or in advance, and again after a new connection however the last one ended; subscriptions receive what is held and then every change, and stay with a guest or host that is moved while unconnected. A host returns an echo to the one who asked and to nobody else, removes exactly the instances of the types named when asked to clear them and tells every member, ignores what asks for nothing, and publishes and removes itself by the same rules, also while its own handlers react to each removal.",
     ["histories", "inputs"], "all sequences of calls and of what the other side does in between, up to a depth, in every state of a connection",
     "the tests call each function once on an open connection; what remains of a broken connection shows in the calls on the next one",
     [S + "GuestTransceiver.cpp", S + "HostTransceiver.cpp", S + "Transceiver.cpp", S + "Connection.cpp"],
     [("a group counts as joined only while the connection it was joined on lasts", S + "GuestTransceiver.cpp"), ("what is to be cleared is collected before anything is removed", S + "HostTransceiver.cpp")],
     [("m_joinedGroups", "groups joined on this connection", L + "GuestTransceiver.h"), ("m_groups", "members of each group", L + "HostTransceiver.h")], ["messages", "events", "exceptions", "contents of containers"],
     DFS + "every message, event, exception and content is predicted by a reference",
     note="publishing between opening and the host's admission, and moving a transceiver with connections, are not claimed")
