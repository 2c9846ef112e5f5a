"""What each check builds, and what its evidence means."""
V = ("vtypes.dots",)


def c(harness, rule, assumptions, parts=("type", "core"), **kw):
    top = {k: kw.pop(k) for k in ("shards",) if k in kw}
    return dict(level=kw.pop("level", "model_checking"), rule=rule, assumptions=assumptions, **top,
                build=dict(harness_sources=[harness], parts=parts, models=V, **kw))


CHECKS = {
    "C01": c("c01.cpp",
             "every pair of record values over the property domains (subsets of the properties of eight record types), every included set that "
             "distinguishes them, and every operation sequence up to the depth, each executed on typed, generic and run-time described records next to the model; "
             "a state is a distinct pair of record values, an outcome a distinct result of an operation",
             ["at most three properties take part at a time; each property's domain has 2-5 values"]),
    "C02": c("c02.cpp",
             "every boundary value of every property type alone, every subset of the properties up to the bound with every distinguishing included set, every kind of unknown "
             "data item at every place, each written and read by typed, generic and run-time described records in both binary formats; a state is a distinct record value with its "
             "included set, an outcome a distinct encoding",
             ["the wire format is judged by an independent CBOR encoder and decoder; tagged and indefinite-length items, which the library never writes, are not offered"]),
    "C03": c("c03.cpp",
             "every boundary value of every property type alone and every subset of the properties up to the bound, written by each of the text writers in each style and read by each "
             "reader of that language, fresh and over an existing record; a state is a distinct record value with its included set, an outcome a distinct text",
             ["floats are finite; the readable format names points in time by the millisecond"]),
    "C04": c("c04.cpp",
             "every byte string up to the length over the alphabet of item heads, every truncation, substitution, insertion and removal of a byte in representative encodings, "
             "every token sequence up to the length, and nesting and sizes far beyond the input, each given to typed and run-time described targets in an exactly sized buffer under "
             "address and undefined-behaviour checking; a state is a distinct input, an outcome a distinct decoded record",
             ["two changed bytes at a time only in the thorough tier"], harness_parts=5),
    "C05": c("c05.cpp",
             "every history of inserts, removes and clears up to the depth over an alphabet of keys, record values and attribute sets, for typed and run-time described containers of seven "
             "record shapes (no key, one key, several keys, record, string and vector keys); a state is a distinct content of the container, an outcome a distinct kind of final step",
             ["instances have all their key properties set, which the transceivers ensure"]),
    "C06": c("c06.cpp",
             "every program of up to three handlers, each of one of three kinds with one of 21 reactions (unsubscribing any of them, subscribing more, publishing and removing nested, throwing, clearing), "
             "from every initial content and every sequence of stimuli up to the bound, call by call against a reference dispatcher; also every reaction during a cache replay, every program of two "
             "new type handlers and every end of a subscription; a state is a distinct content of the container with the number of calls, an outcome a distinct sequence of calls",
             ["one reaction per handler, at its first call"]),
    "C07": c("c07.cpp",
             "every sequence, up to the depth and after every prefix of the regular handshake, of 29 incoming messages, faults and local calls given to a connection in either role, with and without "
             "authentication, with well and ill behaved handlers and a transport that breaks at any transmission, step by step against a reference of the protocol; "
             "a state is a distinct history of transitions and receptions, an outcome a distinct last effect",
             ["a handler called for the transition to closed does not throw"]),
    "C08": c("c08.cpp",
             "both formats of the stream channel on a stream whose operations complete as the exploration decides: every division of a byte stream by up to two cuts (thorough: three), fixed portions around the sizes of "
             "the buffers, every reaction of the receiver at every message and cut, ends, failures and replaced bytes at every place; every sequence of transmissions to two peers and partial, failed or outlived writes up to the depth, "
             "judged by an independent splitter and decoder; a state is a distinct stream with its division or history of steps, an outcome a distinct result",
             ["declared sizes fit into the memory", "the operating system's streams keep their order"]),
    "C09": c("c09.cpp",
             "every interleaving of guests' and the host's publications and removals with the deliveries between them, up to the commutation of steps at different ends (persistent and sleep sets), for all "
             "scripts over an alphabet of changes to shared instances; every step's caches and events against a reference of the network, at rest every guest against the host; "
             "a state is a distinct content of caches, queues and groups, an outcome a distinct final one",
             ["transports deliver in order and without loss", "guests are single threaded"]),
    "C10": c("c10.cpp",
             "every interleaving of opening, preloading, subscribing, unsubscribing and membership messages with other guests' and the host's changes, message by message against a reference of the host",
             ["transports deliver in order and without loss"]),
    "C11": c("c11.cpp",
             "every moment and manner at which a guest's connection ends - left, cut, transmissions failing from any one on, several at once, during the handshake, reopened - in every interleaving with "
             "other guests' changes, and hosts whose handlers react to the withdrawal",
             ["a broken transport breaks for both directions"]),
    "C12": c("c12.cpp",
             "every interleaving of writers, readers, late guests, reconnecting guests and guests that lie in their headers; every header, every event and the clone information of every cached instance "
             "against the reference",
             []),
    "C13": c("c13.cpp",
             "every sequence of transmissions of eight types in both directions up to the depth between an end that has the types compiled in and one that learns them; every subset of the types compiled in at the receiver; every type description "
             "of up to two properties over an alphabet of fields, regular and not, and every enum description likewise, each accepted type exercised in full under address checking; every request for descriptions up to the depth; "
             "a state is a distinct history or description, an outcome a distinct verdict",
             ["the same name describes the same type everywhere"]),
    "C15": c("c15.cpp",
             "every one of some eighty misbehaviours of a peer in three phases of its connection at every point between six changes of two uninvolved guests, delivered at once or piled up; all ordered pairs of misbehaviours of one or two peers; up to three "
             "transports that break after any number of transmissions, up to a bound, with each misbehaviour; every misbehaviour, and pairs, of a host towards a guest; a state is a distinct scenario, an outcome the content of the host",
             ["the misbehaving peer does not define a type's name before the others introduced it", "instances the peer may change by right are not counted as misbehaviour"]),
    "C14": c("c14.cpp",
             "every set of up to two rules over an alphabet of networks, names, priorities, secrets and decisions with every default, against ten kinds of responses of two clients at six addresses; all histories of rule and policy changes up to the depth with a manager "
             "that appears at any point; all handshakes of two peers one after the other over the response kinds, including replays and messages sent early; real guests with and without secrets; responses of every length; a state is a distinct configuration or history, an outcome the vector of verdicts",
             ["SHA-256 is taken from one implementation on both sides", "nonces are only checked for repetition"]),
    "C16": c("c16.cpp",
             "every pair of the six kinds of transports (in-process, WebSocket, TCP and Unix domain sockets with both versions of the protocol) for a writer and a reader, with every sequence of changes by the guests and the host up to the depth, "
             "every record of the value domains, payload sizes around the buffers' boundaries, every manner of ending, up to two callers (thorough: three) that are no guests at the listeners in any order, readers that do not read, exhausted file descriptors, guests admitted by address over IPv4 and IPv6 and connections set up in the background or given up at any point, over real sockets of a real host; "
             "a state is a distinct history or configuration, an outcome a distinct final content",
             ["the schedule of the operating system's socket buffers is not controlled: every result is awaited, with a generous limit", "both ends run in one process, each polled in turn"],
             parts=("type", "core", "net", "ws")),
    "C17": c("c17.cpp",
             "every combination of parts of an address over an alphabet with the accessors, the text and the reading back of it; every sequence of changes to an address up to the depth; every text up to the length over the characters that structure addresses, under address checking; "
             "lists of addresses; durations and points in time over a grid of boundaries, written and read back exactly; every duration text over an alphabet of tokens; identifiers; each against a reference that computes with integers; a state is a distinct text or history, an outcome a distinct result",
             ["points in time carry milliseconds in text", "removing a user name removes the password"]),
    "C18": c("c18.cpp",
             "every sequence of steps up to the depth over two one-shot timers (creating, assigning, moving, discarding, and the same from within a handler) with delays over a grid and clock advances; periodic timers of every period of a grid with clocks that run on by any pattern for hundreds of periods; timers of every magnitude of duration; "
             "the timer service's timers with every handler that adds or removes any of them; observers of two descriptors with every order of readiness, discarding, moving, assigning; every chain of loop promises, kept in or out of the handler; each against a reference agenda under a virtual clock; a state is a distinct history, an outcome the sequence of calls",
             ["the clock is replaced by one the check advances", "the intervals of periodic timers are positive", "what a periodic timer does after its handler threw is not claimed"]),
    "C19": c("c19.cpp",
             "every sequence up to the depth of guests connecting, joining, publishing, leaving, closing, breaking off and callers that never become guests, with the clock advancing in between, against the real daemon with virtual time; the published list of clients, its clean-up every ten seconds, the account of a watching guest and the daemon's status are compared with a reference after every step; a state is a distinct history, an outcome a distinct list",
             ["the daemon's listeners are replaced by in-process ones", "process statistics (memory, CPU times) are not compared"], parts=("type", "core", "app"), extra_sources=("bin/dotsd/src/DotsDaemon.cpp",), extra_includes=("bin/dotsd/src",)),
    "C20": c("c20.cpp",
             "every sequence of application lives up to the depth over the ways to name the host (option, option in two words, environment, user in the address, own transceiver), the fates of the host (good, absent, gone at any phase, wrong or missing or right secret, raw callers that close or speak nonsense), the ways to end (exit codes, signals, the host leaving, at once) and whether signals are handled, and host applications; over real Unix domain sockets; a state is a distinct sequence, an outcome the vector of results",
             ["exit before or after exec is not claimed", "hosts that accept and say nothing block by design"], parts=("type", "core", "app", "uds"), global_transceiver=True),
    "C21": c("c21.cpp",
             "all pairs of sets over seven positions at the edges of the word; two iterators of each of the four kinds with filters and records of their own under every sequence of moves, copies, assignments and exchanges; every range over one or two records for every choice of what is set and asked for; every path of every type at every state of the levels above it under every operation; every sequence of registrations and removals, with twins of the same name and handlers that register or remove; every history of a descriptor map and of a pool of containers; each against sets, lists and maps; a state is a distinct history, an outcome its result",
             ["an iterator is not moved before the first or past the last property", "the first or last of no property is not asked for"]),
    "C22": c("c22.cpp",
             "every sequence, up to the depth, of a guest's calls - opening with and without types, publishing and removing with every kind of selection, wrongly and rightly, subscribing, moving - with what its host does in between, from before the first connection, while joining and when connected; every sequence of what two guests and the host itself ask of a host that reacts to removals in five ways; "
             "every message, event, transition, content and exception against a reference; a state is a distinct reference state, an outcome a distinct history",
             ["nothing is published between opening and the host's admission", "a transceiver is not moved while it has connections"]),
}
