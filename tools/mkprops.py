#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that line anchors are easy to maintain)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))
R = "src/app/common/reactor/"
M = "src/app/modbus/"
U = "src/app/ua/"
C = "src/app/common/ua/"
p("C01", "Inter-component messages arrive exactly once, in order, intact",
  "A message that one component posts to another is handed to the receiver exactly once, with exactly the content posted, and messages from one sender arrive in the order sent, whatever other threads post at the same time. Only when the receiver's backlog is full, or the message is larger than a message slot, may a post be dropped, and then it is dropped as a whole without disturbing any other message; after the backlog drains, posting works again.",
  ["schedules", "histories"], "every interleaving (at each shared memory access, lock and system call) of concurrent senders with the receiving loop, every fill level of the backlog and every message size",
  "Loss, duplication or corruption needs a particular interleaving of senders with the receiver or a particular wrap-around of the backlog; a test samples a few.",
  [R + "Reactor.cpp", R + "MsgMemStorage.cpp", R + "Event.cpp", R + "ReactorManager.cpp", "src/app/common/utils/Queue.hpp"],
  [("slot ring with mutex", R + "MsgMemStorage.cpp push/pop"), ("eventfd wake-up carries number of messages", R + "Event.cpp, Reactor.cpp onFdEvent"), ("routing by component", R + "ReactorManager.cpp send")],
  ["message handlers invoked by the receiving loop", "messages posted by the senders"])
p("C02", "One failing callback or released resource never disturbs the event loop",
  "The event loop keeps running and delivers every message and every socket, timer and acceptor event that is due, even when handlers throw (standard) exceptions, receive messages nobody handles, or release (and re-create) resources while other events of the same wake-up are still to be dispatched. A handler is never called for a resource after it has been released, and no event of one resource is ever delivered to another.",
  ["histories", "schedules"], "every batch of simultaneously ready events, in every order, with every choice of callbacks that throw or release or re-create other resources",
  "It needs several events reported in one wake-up with a specific order and a specific misbehaving callback.",
  [R + "Epoll.cpp", R + "Reactor.cpp", R + "Timer.cpp", R + "Link.cpp", R + "Acceptor.cpp"],
  [("event dispatch loop", R + "Epoll.cpp wait"), ("message dispatch loop", R + "Reactor.cpp onFdEvent/run")],
  ["callbacks invoked", "epoll_wait results"])
p("C03", "Event-loop resources are never leaked, whatever fails",
  "Every timer, connection and listener obtained from the event loop gives back its descriptor and its slot when it is released, whichever operating-system call fails while it is created, used or released; a creation that fails leaves nothing behind. So any sequence of creations and releases leaves the full capacity available, descriptors are closed exactly once, and no failure terminates the process.",
  ["histories", "fault_sequences"], "every sequence of create/use/release operations up to the bound, with every system call failing at every position",
  "Error paths of system calls are not reached by tests, and a leak shows only after the capacity is used up.",
  [R + "Reactor.cpp", R + "EntityPool.hpp", R + "Timer.cpp", R + "Link.cpp", R + "Acceptor.cpp"],
  [("fixed capacity pools", R + "EntityPool.hpp"), ("owning handles with releasing deleters", R + "Reactor.cpp createTimer/createLink/createAcceptor")],
  ["open descriptors in the kernel", "success of later creations"])
p("C04", "Timers fire exactly once, never early, never after being stopped",
  "A timer that is started fires exactly once, not before and promptly after its interval; starting it again replaces the earlier deadline, and a stopped or released timer does not fire, even if its expiry was already pending. Timers are independent of each other.",
  ["histories", "schedules"], "every sequence of start/restart/stop/release on several timers, for every interval class and every clock phase, including expiries that are pending in the same wake-up",
  "The race between expiry and stop/restart and the arithmetic at second boundaries depend on exact clock phases.",
  [R + "Timer.cpp", R + "Reactor.cpp"], [("absolute-deadline timerfd", R + "Timer.cpp start/stop"), ("expiry dispatch", R + "Timer.cpp onFileDescriptorEvent")],
  ["timer callbacks with the (simulated) monotonic clock"])
p("C05", "Connections carry exact bytes to the exact address or report failure",
  "A connection is made to (or accepted on) exactly the configured IPv4 address and port; received bytes are exactly those the peer sent, in order; a send that reports success has handed over every byte, otherwise failure is reported. End of stream, reset and refused connection are reported to the owner and are never mistaken for data or for an established connection, and no peer behaviour kills the process.",
  ["inputs", "fault_sequences", "histories"], "every address and port, every segmentation of the stream, every short write, close, reset and error at every point",
  "Byte values of addresses, short writes, EOF versus data and combined readiness events are environment conditions tests on mocks never produce.",
  [R + "Link.cpp", R + "Acceptor.cpp", R + "types/LinkAddr.hpp"], [("socket wrapper", R + "Link.cpp"), ("listener", R + "Acceptor.cpp"), ("address decoding", R + "types/LinkAddr.hpp")],
  ["system calls made", "results and events given to the owner", "bytes at the peer"])
p("C06", "Every Modbus client request is answered exactly once",
  "Every item of every Modbus client request is answered by exactly one response carrying its client and transaction id, within bounded time, whatever the server and network do (no connection, garbage, silence, close at any point) and however many requests are queued, as long as the client is not released or re-configured meanwhile. No response is produced that was not asked for.",
  ["histories", "fault_sequences"], "every sequence of requests, connection events, timer expiries, server replies (right, wrong, split, late) and failures up to the bound",
  "A lost or duplicated response needs a specific order of reply, timeout, close and new request.",
  [M + "Modbus.cpp", M + "client/ModbusClient.cpp", M + "client/ModbusAduStorage.cpp", M + "client/ModbusClientReceive.cpp", M + "client/ModbusClientSend.cpp"],
  [("request queue", M + "client/ModbusAduStorage.cpp"), ("client state machine", M + "client/ModbusClient*.cpp")],
  ["messages to the requester"])
p("C07", "Modbus client puts exact requests on the wire and reports only real replies",
  "Accepted requests go onto the wire in the order given, each as the exact Modbus/TCP frame of the request, one outstanding at a time. A response is reported as successful only if, after that request was sent, the server returned on the same connection a well-formed frame with that transaction id, unit and function, and then it carries exactly that frame's data or exception code, however the reply was segmented.",
  ["inputs", "histories"], "every request content class, every reply content class and every segmentation of the reply, in every state of the client",
  "Wrong association of a late or stale reply, or a frame field error, depends on content and timing combinations.",
  [M + "client/ModbusClient.cpp", M + "ModbusCodec.cpp", M + "PduBuffer.hpp"], [("frame codec", M + "ModbusCodec.cpp"), ("reply matching", M + "client/ModbusClient.cpp receive")],
  ["bytes at the server side of the connection", "messages to the requester"])
p("C08", "Modbus client always recovers its connection",
  "After a refused, failed, timed-out, closed or reset connection the client reconnects to the configured address after its back-off, again and again, using at most one connection at a time, and once the server is reachable requests are served normally again. While it is not connected each request fails immediately, reconnection attempts are never made in a busy loop, and releasing the component closes the connection for good.",
  ["fault_sequences", "histories"], "every sequence of connection failures and successes, at every point of a request's life, up to the bound",
  "Recovery depends on the failure hitting a specific state of the client.",
  [M + "client/ModbusClientConnect.cpp", M + "client/ModbusClientBackoff.cpp", M + "client/ModbusClientConnected.cpp", M + "client/ModbusClient.cpp"],
  [("connect/back-off states", M + "client/ModbusClientConnect.cpp, ModbusClientBackoff.cpp")], ["connection attempts and their times", "open sockets", "messages to the requester"])
p("C09", "Modbus server decodes each request once, for any segmentation",
  "For every way the network cuts the byte stream into pieces, a well-formed supported Modbus/TCP request that arrives on an idle session (the previous request answered or timed out, nothing else sent meanwhile) is forwarded to the application exactly once with exactly its transaction id, unit, function, item range and data, independent of what was received before or on other sessions. Malformed or unsupported input is never forwarded and never makes the server stop, hang or lose other sessions.",
  ["inputs", "histories"], "every frame of the enumerated content classes, every split of it, every malformed variant, in every session state, with several sessions interleaved",
  "Reassembly errors show only for specific cut positions and leftovers of earlier frames.",
  [M + "server/session/ModbusSession.cpp", M + "server/session/ModbusSessionConnected.cpp", M + "ModbusCodec.cpp"],
  [("reassembly buffer", M + "server/session/ModbusSession.cpp receive"), ("request decoder", M + "ModbusCodec.cpp decode")], ["messages to the application"])
p("C10", "Modbus server answers only the outstanding request, on its own connection",
  "A response from the application (functions 3, 4, 5, 6, 16 or an exception) is encoded exactly and sent once, to the session it names if that session has an outstanding request with its transaction id; late, repeated, mismatched, failed or stray responses send nothing to anybody and do no harm. After a response, or after the response timeout, the session serves the next request.",
  ["histories", "inputs"], "every order of requests, application responses (right, late, duplicate, wrong ids, wrong sizes), timeouts and disconnects on several sessions",
  "Misdelivery needs a session slot reused while an old response is in flight or a response arriving in the wrong state.",
  [M + "server/ModbusServer.cpp", M + "server/session/ModbusSession.cpp", M + "server/session/ModbusSessionWaitModbusAduRsp.cpp"],
  [("response matching", M + "server/session/ModbusSession.cpp send"), ("wait state", M + "server/session/ModbusSessionWaitModbusAduRsp.cpp")], ["bytes at each client connection"])
p("C11", "Modbus server sessions come and go without losing capacity",
  "However clients connect, disconnect, go silent or exceed the capacity, and whichever call fails while a connection is accepted, the server keeps accepting new connections whenever capacity is free, closes a session's connection when the client closes it, breaks it or stays inactive for the configured time, and returns all its resources. A session that reuses a slot behaves exactly like a new one.",
  ["histories", "fault_sequences"], "every sequence of connects, closes, resets, inactivity and accept failures, up to and beyond the capacity",
  "Leaks need failures in the accept path or many session generations.",
  [M + "server/ModbusServer.cpp", M + "server/ModbusSessionPool.cpp", M + "server/session/ModbusSession.cpp", M + "server/session/ModbusSessionInit.cpp"],
  [("session pool", M + "server/ModbusSessionPool.cpp"), ("session release", M + "server/session/ModbusSession.cpp releaseSession")], ["accepted and closed connections", "messages to the application"])
p("C12", "Modbus frames are encoded and decoded exactly per protocol",
  "For all field values, encoding a request or response yields exactly the Modbus/TCP frame the protocol prescribes or is refused, decoding a frame yields exactly the fields it contains or is refused, and the two are inverse. No content of a frame of admissible length makes the codec read or write outside its buffers.",
  ["inputs"], "all function codes, unit ids, item counts, byte counts and lengths, boundary values of the other fields, all single-byte corruptions of frames",
  "The domain is far larger than any test table; errors sit at boundaries.",
  [M + "ModbusCodec.cpp", M + "PduBuffer.hpp", M + "ModbusDefs.hpp"], [("frame codec", M + "ModbusCodec.cpp"), ("buffer", M + "PduBuffer.hpp")], ["encoded bytes", "decoded fields"])
p("C13", "OPC UA values survive encoding and decoding unchanged",
  "Every supported OPC UA value, including null and empty strings and arrays, optional parts in every combination and all node-id forms, is encoded to exactly the bytes the OPC UA binary encoding prescribes and decodes back to an equal value, wherever in a message it stands and whatever the target object held before; decoding consumes exactly what encoding produced.",
  ["inputs"], "all combinations of optional fields and forms, boundary numeric values and lengths, every position in a buffer",
  "Combinations of optional fields, lengths and positions multiply beyond test tables.",
  [C + "common/OpcUaBinaryCodec.cpp", C + "common/OpcUaBinaryCodec.hpp", C + "common/OpcUaSduBuffer.cpp", C + "common/types/"],
  [("binary codec operators", C + "common/OpcUaBinaryCodec.cpp"), ("buffer", C + "common/OpcUaSduBuffer.cpp")], ["encoded bytes", "decoded values", "read position"])
p("C14", "Malformed OPC UA input is rejected without harm",
  "No byte sequence received from the network, at any stage of a connection, crashes the process, makes it read or write outside its buffers, hang, or consume unbounded resources, and it never affects what other connections see. A truncated, over-long or inconsistent value is refused as an error.",
  ["inputs", "histories"], "every truncation and every single-field corruption (lengths, counts, types, ids) of every message kind at every protocol stage",
  "Each malformed variant exercises a different bounds check; tests use only well-formed input.",
  [C + "common/OpcUaBinaryCodec.cpp", C + "common/OpcUaSduBuffer.cpp", U + "transport/server/UaTcpConnection.cpp", U + "securechannel/channel/UaServerSecureChannel.cpp", U + "service/"],
  [("bounds checks of the buffer", C + "common/OpcUaSduBuffer.cpp"), ("codec exceptions", C + "common/OpcUaBinaryCodec.cpp")], ["process survival under the address sanitizer", "replies on other connections"])
p("C15", "OPC UA TCP handshake and framing work for any segmentation",
  "A client that sends a valid Hello gets exactly one Acknowledge on its connection, and each complete message chunk it sends afterwards is processed exactly once and in order, for every way the byte stream is cut into pieces; anything other than a Hello first, or an invalid chunk header, is never answered as if it were valid. A connection that stays silent for the configured time (30 s) is closed, and one that is not silent is not.",
  ["inputs", "histories"], "every segmentation (one and two cut points, byte by byte, several messages per segment) of the client's byte stream at every stage",
  "Reassembly errors depend on exact cut positions and on what follows in the same segment.",
  [U + "transport/server/UaTcpConnection.cpp", U + "transport/server/UaTcpConnectionReceiveHello.cpp", U + "transport/server/UaTcpConnectionConnected.cpp"],
  [("chunk reassembly", U + "transport/server/UaTcpConnection.cpp receive"), ("connection states", U + "transport/server/")], ["bytes at the client side"])
p("C16", "Secure channel accepts only its own token and consecutive sequence numbers",
  "On an open secure channel only messages carrying that channel's id and token and the next sequence number reach the services; any other is refused: it is not executed or answered, it may at most end the connection it came in on, and it never affects another channel. Everything the server sends on a channel carries its id and token and consecutive sequence numbers from the first message on, also for a channel that reuses the slot of an earlier one.",
  ["inputs", "histories"], "every sequence of opens, messages with right and wrong channel ids, tokens and sequence numbers, closes and reuses over several connections up to the bound",
  "Sequence and reuse errors appear only in particular histories.",
  [U + "securechannel/UaSecureChannel.cpp", U + "securechannel/channel/UaServerSecureChannel.cpp", U + "securechannel/channel/UaServerSecureChannelEstablished.cpp"],
  [("header validation", U + "securechannel/channel/UaServerSecureChannel.cpp"), ("channel pool", C + "common/UaEntityPool.hpp")], ["headers of the messages sent", "responses"])
p("C17", "Every OPC UA service request is answered once, to its sender",
  "Each well-formed request for a supported service on an open channel (a session service with a session the client may use) produces exactly one response of the matching type, on the same connection and channel, with the request's request id and request handle, whatever requests it or other connections send at the same time. A refused request is answered with an error or not at all. Requests for unsupported services are never answered with another service's response and leave the channel usable.",
  ["histories", "inputs"], "every interleaving of requests over several connections and channels up to the bound",
  "Cross-talk between connections or wrong correlation ids need interleaved histories.",
  [U + "service/UaService.cpp", U + "service/UaServiceComponent.cpp", U + "securechannel/", U + "transport/"],
  [("service dispatch", U + "service/UaService.cpp"), ("response routing", U + "securechannel/UaSecureChannelComponent.cpp, " + U + "transport/UaTransportComponent.cpp")], ["responses at each client"])
p("C18", "OPC UA data is served only through an activated session",
  "A Read is answered with data only when it carries the token of a session that was created on the same channel and activated and not closed since; without that it yields no data. Session tokens that are unknown, closed, of another channel or arbitrary values grant nothing and affect no session, distinct live sessions always have distinct tokens and ids, and several sessions of one channel are independent of each other.",
  ["histories", "inputs"], "every order of create, activate, close, read and channel loss on several channels with every class of token",
  "Authorisation holes appear only for particular orders across channels and recycled sessions.",
  [U + "service/session/UaSessionService.cpp", U + "service/session/UaSession.cpp", U + "service/attribute/UaAttributeService.cpp"],
  [("session pool and states", U + "service/session/"), ("channel association", U + "service/UaServiceComponent.cpp")], ["read responses at each client"])
p("C19", "OPC UA connections, channels and sessions never run out by being used",
  "However clients connect, open and close channels, disconnect at any stage or fail to be accepted, the server gives back the connection, the channel with its sessions and the timer as soon as they end, so that new clients can always be served up to the configured capacity. A connection or channel that reuses a slot behaves exactly like a fresh one, and the end of one never ends another.",
  ["histories", "fault_sequences"], "every sequence of connects, handshakes cut off at every stage, closes, timeouts and accept failures, over more generations than the capacity",
  "A leak shows only after as many generations as the pool is large.",
  [U + "transport/server/UaTcpServer.cpp", U + "transport/server/UaTcpConnection.cpp", U + "securechannel/UaSecureChannel.cpp", C + "common/UaEntityPool.hpp"],
  [("connection pool", U + "transport/server/UaTcpServer.cpp"), ("channel pool", U + "securechannel/UaSecureChannel.cpp"), ("release indications", U + "transport/server/UaTcpConnection.cpp")], ["accepted connections", "handshakes completed"])
p("C20", "OPC UA library connections agree on every handshake and deliver every chunk",
  "For every order of user calls, link events, data, timeouts and failures, a client or server connection object of the protocol library (accepted or reversely connected) reports connected exactly when a well-formed Hello and Acknowledge were exchanged, delivers every complete chunk that follows once, in order and unchanged for any segmentation, and reports the end of a connection it did not close itself exactly once (refused or timed-out connect 3 s, handshake 1 s, connection 10 s after it was established, malformed or over-long message, a message it could not send, closed or broken link). A closed or failed connection holds no link or timer and can be opened again, also from its own handler.",
  ["histories", "inputs"], "every sequence of link, timer and user events and every segmentation up to the bound",
  "The existing tests sample a few event orders on mocks.",
  [C + "protocols/connection/ClientConnection.cpp", C + "protocols/connection/ServerConnection.cpp", C + "protocols/connection/OpcUaConnection.cpp"],
  [("client states", C + "protocols/connection/"), ("server states", C + "protocols/connection/")], ["handler events", "bytes sent", "links and timers left open"])
p("C21", "OPC UA library server secure channel serves only its own valid message sequence",
  "For every order of open, data, close and failure events a server secure channel object of the protocol library is established only through a valid open request, which it answers with its channel id, a fresh token and the requested lifetime; it delivers each request that carries its channel, its current token and the next sequence number once and unchanged and ends the connection on any other, sends every response under the id of the request it answers with consecutive sequence numbers, and reports the end of the channel exactly once, after which it can be opened again. Messages that do not fit or can not be sent never damage memory or go unnoticed.",
  ["histories", "inputs"], "every sequence of user and connection events up to the bound, every truncation of an open request",
  "The library channel is not covered by tests at all.",
  [C + "protocols/secure/"], [("server channel states", C + "protocols/secure/")], ["handler events", "messages sent", "links and timers left open"])
p("C22", "The application starts, stops and restarts cleanly",
  "From a start request every component is initialised in turn and the configured servers listen; a stop request at any time releases everything that was set up; afterwards a new start works like the first, no order of start, stop and responses, no failing system call and no request of a remote Modbus client crashes or wedges the application, and it can be ended at any moment.",
  ["histories", "schedules"], "every order of start and stop requests, component responses and connected clients, at every stage of start-up, operation and shut-down, and every failing call, up to the bound",
  "Stops in the middle of start-up and restarts are not tested.",
  ["src/app/controller/ControllerComponent.cpp", "src/app/controller/modbus/", "src/app/controller/ua/", "src/app/Deployer.cpp", M + "ModbusComponent.cpp", U + "transport/UaTransportComponent.cpp"],
  [("controller sequencing", "src/app/controller/ControllerComponent.cpp"), ("per-protocol controllers", "src/app/controller/modbus/ModbusTestController.cpp, src/app/controller/ua/UaController.cpp")], ["messages between components", "listening sockets", "open descriptors"])
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
