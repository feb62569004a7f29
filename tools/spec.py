"""The properties: text, anchors, and how each is claimed."""

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique,
         note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=list(state)))


NA = []


def na(id, title, statement, over, qtext, why, files, mechanism, reason):
    prop(id, title, statement, over, qtext, why, files, mechanism, None, None)
    NA.append((id, reason))


ABS = ("Path-sensitive abstract interpretation of the source (callees "
       "inlined, loops summarised by inferred invariants, equality and "
       "linear-inequality facts); over-approximates every execution of the "
       "code analysed. Trusts the models of builtins and of the callees "
       "named in DESIGN.md, and single-threaded execution of one call unless "
       "the rule is about locks.")

prop(
    "M01", "SNMPv3 responses reach only the request they answer",
    "A received SNMPv3 message is delivered to a pending request only if it "
    "carries the message ID, user name and context name of that request and, "
    "unless it is a report, also its security engine ID, context engine ID "
    "and at least its security level. A message that meets all of this while "
    "the request is alive is delivered, and to that request only; anything "
    "that is not a response or report is never delivered.",
    ["inputs", "histories"],
    "every datagram, every request and every set of requests outstanding",
    "The tests check one mismatch per field with hand-made messages; they "
    "cannot show that no combination of fields is accepted by some path.",
    ["snmp/message/v3.py", "snmp/security/levels.py"],
    [("field-by-field comparison with the cached request",
      "SNMPv3MessageProcessor.prepareDataElements"),
     ("request cache", "SNMPv3MessageProcessor.prepareOutgoingMessage")],
    "path-sensitive abstract interpretation (request/response scenario)",
    ABS)

prop(
    "M02", "SNMPv1/v2c responses reach only the request they answer",
    "A received SNMPv1 or SNMPv2c message is delivered to a pending request "
    "only if it is a response PDU carrying the request ID and the community "
    "of that request; a message that meets this while the request is alive "
    "is delivered to it.",
    ["inputs", "histories"],
    "every datagram, every request and every set of requests outstanding",
    "The tests sample one mismatch per field.",
    ["snmp/message/v1.py", "snmp/message/v2c.py"],
    [("comparison with the cached request", "prepareDataElements"),
     ("request cache", "prepareOutgoingMessage")],
    "path-sensitive abstract interpretation (request/response scenario)",
    ABS)

prop(
    "U01", "Authenticated SNMPv3 messages are accepted only after verification",
    "A received SNMPv3 message that claims authentication is accepted, "
    "decrypted, or allowed to update the local notion of an engine's clock "
    "only after the digest it carries was found equal to the digest of the "
    "whole message (its digest field zeroed) under the authentication key of "
    "the user and engine it names. It is accepted only if it is also timely, "
    "its payload is then decrypted with that user's privacy key and the "
    "parameters in the message, and a message that meets all of this is not "
    "rejected. Errors of the user table never show as such: a message is "
    "refused with an IncomingMessageError.",
    ["inputs", "histories"],
    "every datagram, user table and clock state",
    "A forgery that slips through is one datagram out of 2^n; the tests flip "
    "a few bytes of one message.",
    ["snmp/security/usm/implementation.py", "snmp/security/usm/parameters.py",
     "snmp/message/v3.py", "snmp/utils.py"],
    [("order of verification", "UserBasedSecurityModule.processIncoming"),
     ("location of the digest", "UsmSecurityParameters.findSignature")],
    "path-sensitive abstract interpretation (order and dataflow of digest, "
    "clock and decryption)", ABS)

prop(
    "U02", "Only authenticated messages move an engine's clock, never backward",
    "Once an authenticated message of an engine was accepted, unauthenticated "
    "messages have no influence on the local notion of its clock, and neither "
    "have messages of other engines. Authenticated messages never move it "
    "backward: its boot count never decreases and, while that stays the same, "
    "its time never falls below what the elapsed time and earlier "
    "messages imply. Until then, an unauthenticated message counts as a hint "
    "of the clock of the engine it names and no other.",
    ["inputs", "histories"],
    "every sequence of messages, boot counts, times and arrival times",
    "The tests try a handful of sequences; replay protection has to hold for "
    "every history of messages an attacker can arrange.",
    ["snmp/security/usm/timekeeper.py",
     "snmp/security/usm/implementation.py"],
    [("clock table", "TimeKeeper"),
     ("authenticated and unauthenticated updates",
      "UserBasedSecurityModule.processIncoming")],
    "path-sensitive abstract interpretation with linear facts; induction "
    "over the sequence of messages", ABS,
    state=["the clock kept for each engine"])

prop(
    "U03", "An authenticated message is timely exactly within the time window",
    "An authenticated message is found timely if and only if its boot count "
    "is not below the known boot count, is not 2147483647, and, when the boot "
    "counts are equal, its time is not more than 150 seconds behind the "
    "estimate of the engine's time. The first authenticated message of an "
    "engine is timely unless its boot count is 2147483647.",
    ["inputs", "histories"],
    "every boot count, time, arrival time and earlier message",
    "The boundary lies on a surface of four numbers; the tests sample a few "
    "points near it.",
    ["snmp/security/usm/timekeeper.py"],
    [("window", "TimeKeeper.updateAndVerify")],
    "path-sensitive abstract interpretation with linear facts (the accepting "
    "and rejecting paths are compared with the window)", ABS)

prop(
    "U04", "Outgoing SNMPv3 messages are protected as their level requires",
    "A message sent with authentication carries the digest, under the "
    "authentication key of its user at its engine, of exactly the octets sent "
    "with the digest field zeroed, and the current estimate of that engine's "
    "boots and time. A message sent with privacy carries the ciphertext of "
    "its payload under that user's privacy key, made with the boots, time and "
    "salt it carries, and nothing of the payload in clear. "
    "A message without authentication carries zero boots and time and an "
    "empty digest and salt.",
    ["inputs"],
    "every message, security level, set of credentials and clock state",
    "The tests compare a few complete messages with fixed keys, where a "
    "mix-up of engines, users or keys cannot show.",
    ["snmp/security/usm/implementation.py",
     "snmp/security/usm/parameters.py", "snmp/message/v3.py"],
    [("signing and encryption", "UserBasedSecurityModule.prepareOutgoing")],
    "path-sensitive abstract interpretation (structure of the encoded term)",
    ABS)

prop(
    "U05", "A salt is never used twice with the same privacy key",
    "The salts that one privacy key object puts into messages come from a "
    "64-bit (AES) or 32-bit (DES) counter that starts at an unpredictable "
    "value and takes every value of its range before it repeats. Each "
    "encryption uses a fresh value of the counter, and the salt in the "
    "message is the one the ciphertext was made with.",
    ["histories"],
    "every starting value and every sequence of encryptions",
    "A repeated salt shows up only after a long history or at a wrap-around; "
    "a test makes two or three messages.",
    ["snmp/security/usm/priv", "snmp/utils.py"],
    [("salt counter", "NumberGenerator"),
     ("use in encryption", "encrypt")],
    "path-sensitive abstract interpretation; induction over encryptions",
    ABS, state=["the salt counter of a key"])

prop(
    "U06", "Encryption and decryption use exactly the parameters RFCs 3414/3826 set",
    "Payloads are encrypted and decrypted with AES-128-CFB128 or DES-CBC "
    "under the leading octets of the privacy key and the initialization "
    "vector made of boots, time and salt (AES) or pre-IV and salt (DES); at "
    "most the padding of one block is added, and the result is exactly what "
    "the cipher returned. Keys that are too short are refused, and a "
    "salt or ciphertext of the wrong length is reported as a decryption "
    "error.",
    ["inputs"],
    "every key, payload, boots, time and salt, with both cipher libraries",
    "Tests cover one library, one key and a few payload lengths; wrong "
    "lengths come from the network.",
    ["snmp/security/usm/priv"],
    [("ciphers of either library", "encrypt"), ("checks", "decrypt")],
    "path-sensitive abstract interpretation with models of the two cipher "
    "libraries (resource and data flow of each call)", ABS)

prop(
    "U07", "Keys and digests are derived as RFCs 3414 and 7860 require",
    "A digest is the HMAC of the message, with the hash of the chosen "
    "protocol, truncated to 12, 12, 16, 24, 32 or 48 octets. A key is the "
    "hash of the first 2^20 octets of the repeated secret, localized by "
    "hashing it before and after the engine ID; the authentication key comes "
    "from the authentication secret, the privacy key from the privacy "
    "secret, and either from the common secret if its own is missing.",
    ["inputs"],
    "every protocol, secret, engine ID and message",
    "Tests check one secret each; a slip at other secret lengths or in the "
    "fallback of secrets would not show.",
    ["snmp/security/usm/auth.py", "snmp/security/usm/credentials.py"],
    [("key derivation", "computeKey, localizeKey"), ("digest", "sign")],
    "path-sensitive abstract interpretation (structure of the hashed term)",
    ABS)

prop(
    "U08", "Credentials of one namespace are never used for another's engines",
    "An engine belongs to one namespace at a time, from its first assignment "
    "until every assignment was released; an attempt to assign it to "
    "another meanwhile is refused and changes nothing. The credentials found "
    "for an engine and user are those of that user in the engine's "
    "namespace, localized to that engine, including users added after the "
    "assignment; anything else is reported as unknown engine or user.",
    ["histories"],
    "every history of assignments, releases and user additions",
    "The order of additions, assignments and releases matters; tests try a "
    "few orders.",
    ["snmp/security/usm/users.py", "snmp/security/usm/implementation.py"],
    [("registry", "UserRegistry")],
    "path-sensitive abstract interpretation of every operation history up to "
    "a bound on an abstract registry", ABS + " Histories are bounded (five "
    "operations in the quick tier, six in the thorough one).",
    state=["assignments and users of the registry"])

prop(
    "U09", "Secrets and keys are never shown",
    "No authentication or privacy secret, and no key derived from one, "
    "appears in a message sent, in the text of an error, in the text form of "
    "an object, or in a call out of the package (a log, a print). What "
    "leaves is at most a digest, a ciphertext, or the length of a secret.",
    ["inputs", "faults"],
    "every registration of a user, every message sent or received with "
    "those credentials, and every error of theirs",
    "No test asks what an error or a log line says when secrets are in "
    "reach.",
    ["snmp/security/usm/credentials.py", "snmp/security/usm/users.py",
     "snmp/security/usm/implementation.py", "snmp/security/usm/auth.py",
     "snmp/security/usm/priv/openssl/aes.py",
     "snmp/security/usm/priv/pycryptodome/des.py"],
    [("credentials", "Credentials, LocalizedCredentials"),
     ("errors", "exceptions raised by the registry, the ciphers and the "
                "security module")],
    "information-flow analysis by path-sensitive abstract interpretation "
    "(terms of returned, raised and handed-over values)", ABS)

prop(
    "U10", "Default users and security levels follow the user definitions",
    "The default user of a namespace is the one added as default, or else "
    "the first one added; the default security level of a user is the one "
    "it was given, or else the highest its protocols support. A level beyond "
    "what a user's protocols support is refused, and so is a second "
    "definition of a user that differs from the first, which then stays in "
    "force.",
    ["inputs", "histories"],
    "every sequence of definitions and every combination of protocols",
    "A wrong default silently sends messages with less protection than the "
    "credentials allow.",
    ["snmp/security/usm/users.py", "snmp/security/usm/credentials.py"],
    [("user definitions", "UserRegistry.addUser")],
    "path-sensitive abstract interpretation (definition scenarios)", ABS,
    state=["user definitions"])

prop(
    "U11", "Estimated engine boots and time always fit their wire fields",
    "The engine boots and engine time put into an outgoing message are "
    "always integers from 0 to 2147483647, whatever messages were received "
    "before and however much time has passed.",
    ["inputs", "histories"],
    "every sequence of hints and verified messages and every point in time",
    "Reaching the end of the range takes decades of elapsed time or a "
    "hostile peer.",
    ["snmp/security/usm/timekeeper.py", "snmp/security/usm/parameters.py"],
    [("estimate", "TimeKeeper.getEngineTime"),
     ("validation of received values", "UsmSecurityParameters.deserialize")],
    "path-sensitive abstract interpretation with interval facts", ABS)

TYPE = ("Typestate analysis: the abstract states of a manager and its "
        "requests that are reachable by their interface operations, under "
        "the path-sensitive abstract interpretation of the source, up to "
        "bisimulation; where the search closes, histories of any length are "
        "covered. Bounded: at most two requests at a time, two foreign "
        "engines and a few retransmissions; the quick tier also bounds the "
        "number of states per exploration (the evidence says which closed). "
        "Operations are atomic here; locking is the subject of the K "
        "properties.")

prop(
    "M03", "No result or content below the security level of the request",
    "Everything a manager sends that carries the content of an SNMPv3 "
    "request is sent at the security level, and for the user, the request "
    "was made with. The result of a request is never made of a response "
    "below that level, nor of a response to a message that did not carry "
    "the request.",
    ["histories", "inputs"],
    "every order of requests, reports, responses, refreshes and waits",
    "The managers have no unit tests; the discovery handshake sends messages "
    "at a lower level, whose answers must not leak into results.",
    ["snmp/manager/v3.py"],
    [("sending", "Request.reallySend"), ("results",
                                         "Request.processResponse")],
    "typestate exploration by path-sensitive abstract interpretation", TYPE,
    state=["pending requests and the messages sent for them"])

prop(
    "M04", "The first authentic answer decides an SNMPv3 request, for good",
    "The first authenticated report, or response at its security level, that "
    "is delivered for a request decides it: waiting gives exactly that, "
    "whatever is delivered before or later. An unauthenticated report never "
    "ends a request early; without a decision, waiting lasts until the "
    "request expires or is interrupted, and then raises the first "
    "unauthenticated report, or a timeout if there was none.",
    ["histories", "inputs"],
    "every order of reports, responses, refreshes and waits",
    "The managers have no unit tests; a forged report that ends a request is "
    "a denial of service that only shows in particular orders.",
    ["snmp/manager/v3.py"],
    [("reports", "RequestMessage.push"), ("decision", "Request.wait")],
    "typestate exploration by path-sensitive abstract interpretation", TYPE,
    state=["pending requests and the messages sent for them"])

prop(
    "R02", "A finished request gives everything back exactly once",
    "When a request is over, because it was waited for or because the caller "
    "dropped it, the ID of every message sent for it has been given back "
    "exactly once. Engines are assigned to the manager's namespace while "
    "messages are sent to them, are never released more often than "
    "assigned, and are all released once the manager and its requests are "
    "gone.",
    ["histories"],
    "every order of requests, messages, refreshes, waits and drops, for the "
    "SNMPv1, v2c and v3 managers",
    "Leaked IDs and assignments only show after many requests, or when a "
    "report redirects a request.",
    ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py"],
    [("release", "Request.close"), ("assignments", "Request.engineID")],
    "typestate exploration by path-sensitive abstract interpretation", TYPE,
    state=["message IDs in use", "engine assignments"])

prop(
    "R04", "Pending requests are repeated when due, and waiting is bounded",
    "A pending request is sent again at the first refresh after each of its "
    "periods and not earlier, and is not repeated once it is decided, "
    "expired or dropped; refreshing says to come back no later than the "
    "next request is due, and as long as requests are pending at least one "
    "is being sent. Waiting for a request ends when it expires at the "
    "latest, whatever other requests there are.",
    ["histories", "schedules"],
    "every order of requests, messages, refreshes at different intervals and "
    "waits, for the SNMPv1, v2c and v3 managers",
    "Time-dependent; the managers have no unit tests.",
    ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py"],
    [("retransmission", "Request.refresh"), ("queue", "refresh, poke"),
     ("waiting", "Request.wait")],
    "typestate exploration by path-sensitive abstract interpretation", TYPE
    + " Periods and timeouts are fixed numbers (2 and 5 seconds, refreshes "
    "1 or 3 seconds apart).",
    state=["pending requests and their due times"])

prop(
    "R06", "SNMPv3 requests start at the engine named or authenticated",
    "Once the user named the engine, or an authenticated response came from "
    "one, every new request is first sent to that engine, until an "
    "authenticated response comes from another. Unauthenticated messages "
    "do not change where new requests go.",
    ["histories", "inputs"],
    "every order of requests, reports, responses and refreshes",
    "A forged report that redirects later requests only shows in particular "
    "orders.",
    ["snmp/manager/v3.py"],
    [("engine of the manager", "processResponse, onReport")],
    "typestate exploration by path-sensitive abstract interpretation", TYPE,
    state=["the engine the manager talks to"])

prop(
    "R07", "Nothing of a request is sent before the engine is known",
    "A message sent before the remote engine is known is an empty "
    "GetRequest, without user name, at noAuthNoPriv. The content of a "
    "request is only sent in a message to an engine that was named by the "
    "user or reported by a peer.",
    ["histories"],
    "every order of requests, reports, responses and refreshes",
    "The managers have no unit tests; what a discovery message contains "
    "depends on the state of the manager and of the request.",
    ["snmp/manager/v3.py"],
    [("discovery", "Request.reallySend")],
    "typestate exploration by path-sensitive abstract interpretation", TYPE,
    state=["pending requests"])

EFF = ("Whole-program effect inference: every function per argument types, "
       "with its calls (through callbacks, properties, comparisons and "
       "iteration), lock acquisitions, accesses, waits and dropped "
       "references, and the locks that may and must be held at each, "
       "composed over the call graph from the entry points of the user's "
       "threads, the listener threads and the finalizers. Locks are "
       "identified by where they are created. Finalizers run by the cyclic "
       "garbage collector at arbitrary points are not modelled.")

prop(
    "K01", "Threads never block each other for good on the library's locks",
    "There is an order in which all locks of the library are taken, by "
    "whatever combination of user threads, listener thread, callbacks and "
    "finalizers of dropped requests and managers, and no thread takes a "
    "lock it holds already. A lock is given back however the protected code "
    "ends.",
    ["schedules"],
    "every interleaving of user threads, the listener thread and the "
    "finalizers of dropped objects",
    "A deadlock needs a particular interleaving, or a reference dropped at "
    "a particular moment.",
    ["snmp/dispatcher.py", "snmp/manager/v1.py", "snmp/manager/v2c.py",
     "snmp/manager/v3.py", "snmp/message/v1.py", "snmp/message/v2c.py",
     "snmp/message/v3.py", "snmp/security/usm/implementation.py"],
    [("locks", "lock, activeLock, cacheLock, securityLock, userLock, "
      "timeLock"), ("finalizers", "Request.__del__, "
                    "SNMPv3UsmManager.__del__")],
    "lock-order analysis on whole-program effect summaries", EFF,
    state=["locks"])

prop(
    "K02", "Shared tables are only touched under the lock that guards them",
    "Whatever user threads and the listener thread share (the tables of "
    "outstanding messages, the number generators, the request queues and "
    "the state of a manager, the message processors, users, engines, clocks "
    "and salts) is read and changed only while holding a lock that every "
    "conflicting access holds too.",
    ["schedules"],
    "every interleaving of user threads and the listener thread",
    "A lost update or a corrupted queue needs two threads inside the same "
    "few instructions.",
    ["snmp/dispatcher.py", "snmp/manager/v1.py", "snmp/manager/v2c.py",
     "snmp/manager/v3.py", "snmp/message/v1.py", "snmp/message/v2c.py",
     "snmp/message/v3.py", "snmp/security/usm/implementation.py"],
    [("message IDs", "cache, retrieve, uncache"), ("queues", "refresh, poke, "
      "onReport"), ("users and clocks", "UserBasedSecurityModule")],
    "lockset analysis on whole-program effect summaries", EFF
    + " Objects owned by one request or message are not counted as shared.",
    state=["outstanding messages", "request queues", "user and engine tables"])

prop(
    "K03", "Nothing waits with a lock held or while handling a message",
    "The library never waits for a message, another thread or the clock "
    "while it holds one of its locks. Handling a received message, and the "
    "finalizer of a dropped object, never wait for any of these at all.",
    ["schedules"],
    "every entry point and every chain of calls from it",
    "One slow peer would stall the other requests only under concurrent "
    "use.",
    ["snmp/dispatcher.py", "snmp/manager/v1.py", "snmp/manager/v2c.py",
     "snmp/manager/v3.py"],
    [("waits", "Request.wait"), ("listener", "Dispatcher.hear")],
    "effect analysis on whole-program effect summaries", EFF,
    state=["locks"])

prop(
    "K04", "The listener survives bad input, misses nothing, stops when told",
    "Whatever is received, and whenever reading fails, the listener goes on: "
    "every socket that is ready is read, and what was read is handed on once, "
    "complete, with its sender. The listener ends only when the application "
    "asked it to, and then it does.",
    ["all_inputs", "faults", "histories"],
    "every content of received datagrams; every read may fail; scripted "
    "polls over two sockets and the wake-up descriptor, up to three rounds, "
    "for both multiplexors",
    "No test runs the listening loop, and errors from sockets are rare.",
    ["snmp/dispatcher.py", "snmp/transport/posix/udp.py",
     "snmp/transport/generic/udp.py", "snmp/transport/udp.py"],
    [("reads", "PosixUdpMultiplexor.listen"), ("hands on", "Dispatcher.hear")],
    "path enumeration of the listening loop by abstract interpretation, plus "
    "whole-program exception analysis of what handling a datagram may raise",
    ABS, state=["listener thread"])

prop(
    "K05", "Transports are added and closed only while nobody listens",
    "Through every sequence of adding transports and shutting down, at most "
    "one listener thread runs, the set of sockets changes only while none "
    "does, and each listener is asked to stop exactly once and awaited. "
    "After adding a transport one listens on it; after shutting down none "
    "runs and every descriptor is closed, once.",
    ["histories", "schedules"],
    "every sequence of up to three transports and two shutdowns; close of "
    "both multiplexors with none, one and two sockets",
    "The order of these steps matters only while a thread is running, which "
    "no test has.",
    ["snmp/dispatcher.py", "snmp/engine.py", "snmp/transport/posix/udp.py",
     "snmp/transport/generic/udp.py"],
    [("adds", "Dispatcher.connectTransport"),
     ("ends", "Dispatcher.shutdown")],
    "typestate analysis over the paths of every operation sequence", ABS,
    state=["listener thread", "sockets"])

BITS = (ABS + " Octets are symbols with ranges, so that each shape of header "
        "or number is decided for all its contents; the shapes themselves "
        "(how many octets a length, tag number, integer or sub-identifier "
        "takes) are enumerated up to the bounds in DESIGN.md.")

prop(
    "D03", "An element is exactly the octets its header announces",
    "Decoding an element of a received message gives the tag it carries and "
    "exactly the octets its length announces; anything with fewer octets, "
    "or with more where none may follow, or with another tag than the one "
    "expected, is rejected as a parse error, whatever surrounds it in the "
    "buffer. Encoding gives the shortest header for the tag and length, "
    "followed by the content.",
    ["inputs"],
    "every tag, every length, every position of the element in its buffer",
    "Tests hold a handful of byte strings; an off-by-one at one header size "
    "or one position in a larger message goes unseen.",
    ["snmp/ber.py", "snmp/utils.py"],
    [("headers", "Tag.decode, decode_length"), ("bodies", "decode"),
     ("windows", "subbytes")],
    "path-sensitive abstract interpretation with symbolic octets", BITS)

prop(
    "D04", "Messages are encoded as the protocol defines and decode to equals",
    "Every kind of message, PDU, variable binding and security parameter "
    "block is encoded as the sequence of fields, tags and flags that its "
    "definition prescribes, in that order. Decoding the result gives an "
    "object of the same kind with the same value in every field, including "
    "the place of the digest in the message.",
    ["inputs"],
    "every value of every field, every PDU type, value type, security level "
    "and error status",
    "A swapped pair of fields, or one wrong tag, is invisible to a test "
    "that encodes and decodes with the same code; other implementations see "
    "it.",
    ["snmp/pdu.py", "snmp/message/core.py", "snmp/message/version.py",
     "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py",
     "snmp/security/usm/parameters.py", "snmp/asn1.py", "snmp/smi.py"],
    [("fields", "__iter__ and deserialize of each structure"),
     ("value types", "VarBind.TYPES"), ("PDU types", "pduTypes")],
    "abstract interpretation of encoder and decoder on symbolic messages, "
    "against a table of the standard layouts", ABS)

prop(
    "D05", "Every value type takes exactly the values its definition allows",
    "A number, octet string, address or object identifier outside the range "
    "of its type is refused: with ValueError when an application constructs "
    "it, as a parse error when it is received. Every value inside the range "
    "is taken and kept unchanged.",
    ["inputs"],
    "every value of every type, constructed or received",
    "Tests try a few values around some of the limits.",
    ["snmp/smi.py", "snmp/asn1.py"],
    [("limits of numbers", "BoundedInteger.inRange"),
     ("limits of strings", "OctetString.check"),
     ("limits of identifiers", "OID.__init__")],
    "abstract interpretation over intervals of values", BITS)

prop(
    "D10", "Numbers and object identifiers survive encoding unchanged",
    "Every number and every object identifier is encoded in the fewest "
    "octets its encoding rules allow, and decoding them gives back an equal "
    "value of the same type. Octets that end in the middle of a "
    "sub-identifier are rejected as a parse error.",
    ["inputs"],
    "every value of every numeric type, and every object identifier whose "
    "sub-identifiers take any combination of sizes",
    "The values tests use do not cover each size and sign, nor each "
    "combination of first and second arc.",
    ["snmp/asn1.py", "snmp/smi.py"],
    [("numbers", "INTEGER.serialize, INTEGER.deserialize"),
     ("identifiers", "OBJECT_IDENTIFIER.serialize, "
      "OBJECT_IDENTIFIER.deserialize")],
    "abstract interpretation with bit-precise symbolic octets", BITS)

prop(
    "D02", "Decoding an index gives a value of each type or a library error",
    "Decoding the index part of any object identifier, against any prefix "
    "and any list of types, gives exactly one value of each type, made from "
    "all of the sub-identifiers after the prefix: put back, the value gives "
    "those same sub-identifiers. Otherwise it raises "
    "BadPrefix, exactly if the identifier does not begin with the prefix, "
    "or IndexDecodeError; never another exception.",
    ["inputs"],
    "every object identifier, prefix and list of index types, with the "
    "length of the last implied or not",
    "An agent chooses the identifiers it returns; tests decode a few "
    "well-formed ones.",
    ["snmp/asn1.py", "snmp/smi.py"],
    [("indexes", "OBJECT_IDENTIFIER.decodeIndex"),
     ("fields", "fromOID of each type")],
    "abstract interpretation on symbolic sub-identifiers; combinations of "
    "up to three types over identifiers of bounded length", ABS)

prop(
    "D06", "An index of any values has the standard form and decodes to them",
    "Extending an object identifier with index values gives the identifier "
    "followed by the values in the form the SMI prescribes: a number as "
    "itself, an address as its four octets, a string or identifier as its "
    "length and elements, without the length for the last one if it is "
    "implied. Decoding that index with the types of the values gives equal "
    "values.",
    ["inputs"],
    "every combination of index types and values of them",
    "Tests cover single types, mostly with one value each.",
    ["snmp/asn1.py", "snmp/smi.py"],
    [("encoding", "withIndex, asOID of each type"),
     ("decoding", "decodeIndex, fromOID of each type")],
    "abstract interpretation of both directions on symbolic values, against "
    "a table of the standard forms", ABS)

prop(
    "D07", "Values compare equal exactly when their encodings are the same",
    "Two values are equal exactly when they have the same type tag and the "
    "same content, comparing with anything else never raises, and equal "
    "values that can be hashed have equal hashes. Object identifiers are "
    "ordered lexicographically, and security levels by what they protect.",
    ["inputs"],
    "every pair of values of any two types",
    "A table keyed by identifiers, or a check that a security level is "
    "reached, relies on this for pairs no test compares.",
    ["snmp/asn1.py", "snmp/smi.py", "snmp/ber.py", "snmp/pdu.py",
     "snmp/security/levels.py"],
    [("equality", "__eq__ of each type"), ("hashes", "__hash__"),
     ("order", "OBJECT_IDENTIFIER.__lt__, SecurityLevel.__lt__")],
    "abstract interpretation of the comparisons on symbolic values", ABS)

prop(
    "D09", "Only messages that their protocol version allows are accepted",
    "A received message is accepted if its version, PDU type, value types, "
    "flags and the ranges of its fixed fields are those its protocol "
    "version allows, with nothing missing and nothing left over. Every "
    "other message is rejected, with an error of the kind that means a bad "
    "incoming message.",
    ["inputs"],
    "every tag in every position, every value of the version, flags, "
    "identifiers, sizes, counts, status and index fields",
    "Tests try a few invalid messages; what comes from the network may be "
    "wrong in any field.",
    ["snmp/message/core.py", "snmp/message/version.py",
     "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py",
     "snmp/pdu.py"],
    [("versions", "ProtocolVersion, deserialize of each message"),
     ("PDU types", "pduTypes"), ("ranges", "HeaderData.deserialize, "
      "PDU.deserialize, BulkPDU.deserialize"), ("values", "VarBind")],
    "abstract interpretation of the decoders on symbolic messages, split by "
    "the value of one field at a time", ABS)

prop(
    "D11", "A window on a buffer stands for the slice with the same bounds",
    "A window made on a buffer, or on another window, has the length, "
    "truth, octets, iteration, copies and comparisons of the slice of the "
    "buffer with the same bounds, whatever integers they are. Taking "
    "octets or parts of it never touches octets outside of it.",
    ["inputs"],
    "every buffer, every pair of bounds (negative, beyond the end, crossed "
    "or missing), windows of windows",
    "Every decoder reads through these windows; tests try a few bounds "
    "within the buffer.",
    ["snmp/utils.py"],
    [("windows", "subbytes.__init__, subbytes.translate"),
     ("octets", "subbytes.__getitem__, subbytes.__iter__")],
    "path-sensitive abstract interpretation with linear bounds", BITS)

prop(
    "M05", "Messages go out and come in by the right version and channel",
    "A manager's messages are encoded in the SNMP version of the manager and "
    "sent once, on the channel the manager was made for, to that channel's "
    "address. A received datagram is interpreted only by the processor of "
    "the version it states, and what comes of it is handed only to the "
    "request found there; without a processor for a version nothing is sent "
    "and nothing is delivered.",
    ["inputs", "histories"],
    "every message, every set of registered versions, every channel; "
    "both multiplexors",
    "Neither the dispatcher nor a manager is run by any test.",
    ["snmp/dispatcher.py", "snmp/transport/__init__.py",
     "snmp/transport/udp.py", "snmp/message/v1.py", "snmp/message/v2c.py",
     "snmp/message/v3.py", "snmp/manager/v1.py", "snmp/manager/v2c.py",
     "snmp/manager/v3.py"],
    [("sends and routes", "Dispatcher.sendPdu, Dispatcher.hear"),
     ("channel", "TransportChannel.send")],
    "path-sensitive abstract interpretation (sending and routing scenarios)",
    ABS, state=["registered processors"])

prop(
    "R05", "Requests ask exactly what the caller asked and return the answer",
    "Every message sent for an operation, first or repeated, is the operation "
    "called, on the names, values and repetition counts given, with the "
    "manager's community or the caller's user, level and context. Waiting "
    "returns the variable bindings of the response if it reports no error, "
    "and otherwise raises an error with exactly that status whose cause is "
    "the binding of the request the response points at. Without an explicit "
    "choice the manager's default decides whether the call waits.",
    ["inputs", "histories"],
    "every name, value, count and status; each operation of each version; "
    "lists of up to two names or bindings",
    "No test performs an operation through a manager.",
    ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py",
     "snmp/manager/__init__.py", "snmp/smi.py", "snmp/pdu.py"],
    [("operations", "SNMPv3UsmManager.get, set, getNext, getBulk"),
     ("answers", "Request.wait, ErrorResponse")],
    "path-sensitive abstract interpretation (operation scenarios)", ABS)

prop(
    "R01", "Open requests never share an ID, and each finds its own answer",
    "The ID a new message is given is not zero, fits its field, and differs "
    "from that of every other open request of the same SNMP version, "
    "whatever threads send or finish requests at the same time; if no free "
    "ID is found, the call fails. A response is handed to a request exactly "
    "if it carries that request's ID while the request is open; finishing "
    "one request, or a message that comes meanwhile, leaves the others as "
    "they are, and an SNMPv1 or SNMPv2c request that is sent again keeps its "
    "ID.",
    ["inputs", "schedules", "histories"],
    "any numbers drawn, in any order, with collisions and zeros; three open "
    "requests, or two threads interleaved at every acquisition of a lock",
    "A collision takes billions of requests or an unlucky schedule.",
    ["snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py"],
    [("allocates IDs", "cache"), ("finds requests", "retrieve"),
     ("releases IDs", "uncache")],
    "path-sensitive abstract interpretation, with another thread's call "
    "placed at each lock acquisition", ABS + " One other thread, one call "
    "of it; numbers drawn are arbitrary for the first few draws and new "
    "afterwards.", state=["outstanding messages"])

prop(
    "R03", "IDs are drawn without repetition from the whole range",
    "A number generator for n bits, signed or not, gives every n-bit number "
    "exactly once before it repeats, and zero last, whichever random numbers "
    "it starts from.",
    ["inputs", "histories"],
    "every random start, every state; 1, 2, 8, 16, 31, 32 and 64 bits "
    "(thorough: 1 to 129)",
    "The tests run it through small widths; the widths in use have up to "
    "2^32 numbers for each of 2^31 starts.",
    ["snmp/utils.py"],
    [("generator", "NumberGenerator")],
    "inductive invariant checked by abstract interpretation with linear "
    "arithmetic modulo 2^n", ABS, state=["generator"])

prop(
    "E01", "An engine's manager is the one that was asked for",
    "The manager an engine makes speaks the version asked for (or the "
    "engine's default) to exactly the address asked for, through a socket of "
    "the domain and local address asked for, and sends with the community, "
    "or user, level and namespace asked for, or else their defaults. Managers "
    "of the same version share one message processor, and those with the "
    "same domain and local address one socket; nothing is registered twice. "
    "An unsupported version, domain or security model, or a missing user, is "
    "refused with the documented error.",
    ["inputs", "histories"],
    "every combination of arguments given or left out, for each version, and "
    "a second manager made by the same engine",
    "No test makes a manager through an engine.",
    ["snmp/engine.py", "snmp/dispatcher.py", "snmp/transport/__init__.py"],
    [("manager factory", "Engine.Manager, v1Manager, v2cManager, v3Manager"),
     ("shared sockets", "TransportMultiplexor")],
    "path-sensitive abstract interpretation (factory scenarios)", ABS)

prop(
    "E02", "Every name, variable, attribute and argument that is used is there",
    "No operation of the library, whatever its input and also where it "
    "reports an error, ends in a NameError, UnboundLocalError, "
    "AttributeError, or TypeError of its own making: every name, variable "
    "and attribute it reads was defined before on every path, every function "
    "it calls takes the arguments given, and every class it uses implements "
    "what its bases declare.",
    ["all_inputs", "faults"],
    "every path of every function, including those through handlers",
    "An error path that no test takes may itself fail, and hides the error "
    "it was to report.",
    ["snmp/engine.py", "snmp/dispatcher.py", "snmp/manager/v3.py",
     "snmp/message/v3.py", "snmp/security/usm/implementation.py",
     "snmp/security/usm/users.py", "snmp/smi.py", "snmp/pdu.py"],
    [("whole package", "every function and class")],
    "definite-assignment dataflow over every function, scope and attribute "
    "resolution, and arity of calls under whole-program type inference",
    "Attributes of values whose class is not inferred, and those of objects "
    "of other packages, are not checked.")

prop(
    "E03", "Only proper UDP addresses are used, with the right defaults",
    "An address is accepted exactly if it is one of its domain's family and "
    "its port, if given, lies between 0 and 65535 and is not 0 where one "
    "listens; what is accepted is used unchanged. What is left out becomes "
    "the domain's wildcard address and port 161 for agents, 162 for trap "
    "listeners or 0 otherwise. Anything else is refused with ValueError, or "
    "TypeError where the address is no string.",
    ["all_inputs"],
    "every address and port, in each form, for each usage and domain",
    "The tests sample a few addresses and ports.",
    ["snmp/transport/udp.py", "snmp/transport/__init__.py"],
    [("normalization", "UdpSocket.normalizeAddress"),
     ("defaults", "TransportDomain, UdpSocket.DEFAULT_PORT")],
    "path-sensitive abstract interpretation (all paths, linear facts)", ABS)
