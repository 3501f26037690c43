#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
MB = "bytes on client sockets"

p("R01", "A publish reaches exactly the sessions whose topic filters match",
  "For every topic and every set of topic filters, a publish is delivered once for each matching subscription and never for a non-matching one. Single-level and multi-level wildcards follow the MQTT rules ('a/#' also matches 'a', '+' matches exactly one level including an empty one), topics are case- and byte-exact, and filters starting with a wildcard never match topics starting with '$'.",
  ["inputs", "histories"], "all topics, all filter sets, all splits of filters over clients",
  "The unit tests check a few dozen hand-picked filter/topic pairs; matching is a recursive walk over a tree plus a vectorised splitter whose behaviour depends on level count, empty levels, lengths and on which other filters share a prefix.",
  ["subscriptionstore.cpp", "threadlocalutils.cpp", "utils.cpp", "session.cpp"],
  [("recursive tree walk", "subscriptionstore.cpp: SubscriptionStore::publishRecursively/queuePacketAtSubscribers"), ("vectorised topic splitter", "threadlocalutils.cpp: SimdUtils::splitTopic"), ("dollar-topic root", "subscriptionstore.cpp: rootDollar")], observe=MB)
p("R02", "Delivered messages carry the published content at the right QoS",
  "Every delivered copy has the published topic, payload, content type, response topic, correlation data, payload format indicator and user properties (in order, v5 receivers only) unchanged, whatever protocol versions publisher and receiver use and whatever other receivers exist. Its QoS is the minimum of the published QoS and the QoS granted to that subscription.",
  ["inputs", "configurations"], "all messages, payload sizes, property sets, publisher/receiver protocol versions, receiver mixes",
  "The tests use a handful of fixed messages; one serialised packet is cached and shared between receivers with equal version/QoS/alias settings, so corruption appears only for specific mixes of receivers and sizes around buffer growth.",
  ["mqttpacket.cpp", "publishcopyfactory.cpp", "session.cpp", "cirbuf.cpp", "client.cpp", "variablebyteint.cpp"],
  [("shared serialised copies", "publishcopyfactory.cpp: getOptimumPacket"), ("packet serialisation", "mqttpacket.cpp: MqttPacket::MqttPacket(ProtocolVersion, Publish&)"), ("circular buffer growth", "cirbuf.cpp: ensureFreeSpace/doubleCapacity")], observe=MB)
p("R03", "Messages of one publisher are delivered in publish order",
  "For one publisher, one topic and one subscription, non-dropped messages of the same QoS arrive at a subscriber in the order in which they were published, also when the subscriber is flow-controlled, reconnects, or is served by another thread. Redeliveries after a reconnect keep the original order.",
  ["schedules", "histories"], "all publish/ack/reconnect histories, 1..n worker threads",
  "Order depends on the queue of unacknowledged packets, flow-control catch-up and thread interleaving; tests publish few messages on mostly one thread.",
  ["session.cpp", "qospacketqueue.cpp", "client.cpp", "threadloop.cpp"],
  [("ordered outgoing queue", "qospacketqueue.cpp"), ("pending data resend", "session.cpp: sendAllPendingQosData")], observe=MB)
p("R04", "Subscription options and identifiers are honoured per subscription",
  "No-local subscriptions never receive the subscriber's own messages while others do, retain-as-published decides the retain flag of live messages, and every delivered copy (live, queued, resent or retained) carries exactly the subscription identifier given with the matching subscription, if any. Subscribing again to the same filter replaces its options, the last one in processing order winning.",
  ["inputs", "histories"], "all option combinations, resubscribe histories, multi-filter SUBSCRIBE packets",
  "Options combine with queueing, retained delivery, persistence and packet sharing in many ways, of which tests fix only a few.",
  ["mqttpacket.cpp", "subscriptionstore.cpp", "publishcopyfactory.cpp", "subscription.cpp"],
  [("subscription options per subscriber", "subscriptionstore.cpp: SubscriptionNode::addSubscriber"), ("deferred subscribe list", "mqttpacket.cpp: handleSubscribe")], observe=MB)
p("R05", "Subscribe and unsubscribe take effect exactly, and never disturb others",
  "After a SUBACK the granted filter delivers, after an UNSUBACK it does not, and no subscribe, unsubscribe, session end or background clean-up by one session changes what any other session receives. SUBACK/UNSUBACK echo the packet id with one code per filter, granting the requested QoS (capped by the configured maximum).",
  ["histories", "schedules"], "all interleavings of subscribe/unsubscribe/disconnect/clean-up over many clients and filters",
  "Tree nodes are shared and pruned by a background purge; only long churn histories expose lost or stale subscriptions.",
  ["subscriptionstore.cpp", "mqttpacket.cpp"],
  [("tree insert/remove", "subscriptionstore.cpp: addSubscription/removeSubscription"), ("purge", "subscriptionstore.cpp: cleanSubscriptions/purgeSubscriptionTree")], observe=MB)
p("R06", "A shared subscription group gets every message exactly once",
  "For each share name and filter, every matching message is delivered to exactly one of the group's current members (for an off-line member with a surviving session it waits like any other message), independently of other groups and of ordinary subscriptions. Members that unsubscribe or whose session ends are no longer chosen, and the rest keep receiving everything.",
  ["histories", "configurations"], "all membership histories, groups, targeting modes",
  "Selection state (round-robin position, holes from departed members) depends on history; tests use a fixed small group.",
  ["sharedsubscribers.cpp", "subscriptionstore.cpp"],
  [("member selection", "sharedsubscribers.cpp: getNext/getNextByHash/getFirst"), ("hole purging", "sharedsubscribers.cpp: purgeAndReturnEmpty")], observe=MB)
p("D01", "Inbound QoS 1/2 messages are acknowledged and accepted exactly once",
  "Every accepted QoS 1 PUBLISH gets one PUBACK and every QoS 2 PUBLISH one PUBREC with the same packet id, and each PUBREL gets a PUBCOMP. A QoS 2 message retransmitted before its PUBREL (also after reconnecting to the same session) is routed once only, and the id is reusable for a new message after PUBREL.",
  ["histories", "inputs"], "all interleavings of PUBLISH/DUP/PUBREL with arbitrary ids, reconnects, QoS mixes",
  "Tests follow the happy path; exactly-once depends on the set of open incoming ids across arbitrary orders and reconnects.",
  ["mqttpacket.cpp", "session.cpp", "acksender.cpp"],
  [("incoming QoS2 id set", "session.cpp: addIncomingQoS2MessageId/removeIncomingQoS2MessageId"), ("deferred ack", "acksender.cpp")], observe=MB)
p("D02", "QoS 1/2 deliveries survive reconnects: none lost, none repeated after ack",
  "A QoS 1/2 message sent to a subscriber with a surviving session is sent again with the same packet id after every reconnect until PUBACK (QoS 1) or PUBREC (QoS 2) arrives, and never after that. After PUBREC the PUBREL is sent, and repeated on reconnect, until PUBCOMP.",
  ["histories", "crash_points"], "all placements of disconnects between publish, ack, rec, rel, comp; any number of in-flight messages",
  "Tests disconnect at one or two fixed points; the state machine has many more cut points and mixes.",
  ["session.cpp", "mqttpacket.cpp", "qospacketqueue.cpp"],
  [("unacknowledged queue", "qospacketqueue.cpp"), ("outgoing QoS2 id set", "session.cpp"), ("ack handling", "mqttpacket.cpp: handlePubAck/handlePubRec/handlePubComp")], observe=MB)
p("D03", "In-flight packet ids are unique and receive maximum is respected",
  "On a connection the broker never has more QoS>0 messages sent and not yet acknowledged than that client's Receive Maximum, and never uses a packet id for a new message while an earlier one with that id is not completely acknowledged. Every acknowledgement frees its slot exactly once, so that queued messages continue to flow and the quota never shrinks or grows over time.",
  ["histories", "inputs"], "all ack orders, receive maxima, message counts including beyond 65535 ids, reconnects and restarts in between",
  "Tests use small fixed counts and never wrap the id space or leak quota slowly.",
  ["session.cpp", "usedids.cpp", "qospacketqueue.cpp"],
  [("id allocation", "usedids.cpp"), ("flow control quota", "session.cpp: increaseFlowControlQuota/decreaseFlowControlQuota")], observe=MB)
p("D04", "Persistent sessions get every QoS>0 message published while off-line",
  "While a client with a persistent session is off-line, every matching message of effective QoS 1 or 2 (within configured limits) is stored with its properties and delivered in order, once each, at the next connect that resumes the session. QoS 0 messages published meanwhile are not delivered later.",
  ["histories"], "all sequences of disconnect/publish/reconnect (any protocol version on either side)",
  "Tests cover single off-line periods with few messages.",
  ["session.cpp", "qospacketqueue.cpp", "publishcopyfactory.cpp"],
  [("queueing", "session.cpp: writePacket"), ("drain at connect", "session.cpp: sendAllPendingQosData")], observe=MB)
p("D05", "Pending-message limits bound a session without breaking it",
  "A session never holds more pending QoS messages than the configured message count (and stops accepting beyond the configured bytes); messages beyond the limit are dropped for that session only. Whatever was accepted is still delivered, and after acknowledgements the session accepts messages again.",
  ["histories", "configurations"], "all limits, payload sizes and publish/ack/reconnect sequences",
  "Limit arithmetic over histories with acks and large payloads is not sampled by tests.",
  ["session.cpp", "qospacketqueue.cpp", "settings.cpp"],
  [("limit test", "session.cpp: writePacket"), ("queue byte accounting", "qospacketqueue.cpp")], observe=MB)
p("D06", "Topic aliases always resolve to the intended topic",
  "A client's alias resolves to the topic most recently bound to it on that connection, never across connections or clients; unknown, zero or too-large aliases are protocol errors. Towards a client the broker uses only aliases within that client's announced maximum and an alias-only message always means the topic it was bound to on that connection.",
  ["histories", "inputs"], "all bind/rebind/use sequences, maxima, reconnects, receiver mixes",
  "Aliases interact with shared serialised packets, reconnects and limits; tests use a few aliases.",
  ["client.cpp", "mqttpacket.cpp", "publishcopyfactory.cpp"],
  [("incoming alias table", "client.cpp: setTopicAlias/getTopicAlias"), ("outgoing alias allocation", "client.cpp: writeMqttPacketAndBlameThisClient")], observe=MB)
p("D07", "Packet size limits are respected without collateral loss",
  "A client is never sent a packet larger than its announced Maximum Packet Size; such messages are dropped for that client only, and all smaller messages continue to flow to it. A client that sends a packet above the broker's limit is disconnected and nobody else is affected.",
  ["inputs", "histories"], "all size/limit combinations, QoS levels, flow-control windows",
  "Dropping interacts with id and quota accounting; tests send one oversized message.",
  ["client.cpp", "session.cpp", "mqttpacket.cpp"],
  [("outgoing limit", "client.cpp: writeMqttPacket"), ("incoming limit", "mqttpacket.cpp: bufferToMqttPackets")], observe=MB)
p("D08", "Expired messages are not delivered; others carry the remaining lifetime",
  "A message with an expiry interval is never delivered (live, queued or retained) once that interval has passed since it was published, is not discarded before it, and when delivered to a v5 client carries the interval minus the time it waited in the broker. Messages without an expiry interval never expire in the queue.",
  ["histories", "schedules"], "all intervals, waiting times, QoS, queueing and retained paths",
  "Tests sleep a second or two of wall-clock time for one message; the arithmetic over long waits and several hops is not covered.",
  ["types.cpp", "session.cpp", "mqttpacket.cpp", "subscriptionstore.cpp"],
  [("expiry arithmetic", "types.cpp: Publish::hasExpired/getCurrentTimeToExpire"), ("queue expiry", "session.cpp: sendAllPendingQosData")], observe=MB)
p("T01", "A new subscription gets exactly the current matching retained messages",
  "For every topic the last retained publish (in processing order) is the retained message, an empty retained payload removes it, and a subscribe delivers exactly the current retained messages matching the filter, with retain flag set and QoS capped, subject to the retain-handling option and never for shared subscriptions. Retained publishes reach existing subscribers as ordinary messages.",
  ["histories", "inputs"], "all sequences of retained set/replace/clear and subscribes with any filter",
  "Tests set few topics; walking the retained tree with wildcards, empty levels, deferral and clean-up depends on tree shape and history.",
  ["subscriptionstore.cpp", "retainedmessage.cpp", "mqttpacket.cpp"],
  [("retained tree", "subscriptionstore.cpp: setRetainedMessage"), ("retained walk", "subscriptionstore.cpp: giveClientRetainedMessages*")], observe=MB)
p("T02", "Retained modes and limits do what the configuration says",
  "For each configured retained-messages mode (enabled, without persistence, without retaining, downgrade, drop, disconnect) and each payload/node limit, retained publishes are stored, forwarded, downgraded, dropped or refused exactly as documented. Refusing one never affects other topics, other clients or already retained messages.",
  ["configurations", "histories"], "all modes, limits and publish sequences",
  "Modes times limits times histories are combinatorial; tests fix one each.",
  ["mqttpacket.cpp", "subscriptionstore.cpp", "settings.cpp", "client.cpp"],
  [("mode switch", "mqttpacket.cpp: handlePublish"), ("limits", "subscriptionstore.cpp: setRetainedLimitReached")], observe=MB)
p("T03", "Retained messages vanish exactly when they should",
  "A retained message stays available until replaced, cleared, past its own expiry interval, or past the configured retained lifetime, and from then on no new subscriber receives it. Background expiry of one never removes or corrupts another, wherever in the topic tree it sits.",
  ["histories", "schedules"], "all expiry patterns, tree shapes, clean-up moments",
  "Background expiry works in deferred slices over the tree with virtual hours between runs; tests use tiny trees.",
  ["subscriptionstore.cpp", "retainedmessage.cpp"],
  [("background expiry", "subscriptionstore.cpp: expireRetainedMessages"), ("delivery-time check", "retainedmessage.cpp: hasExpired")], observe=MB)
p("S01", "Sessions live exactly as long as the client asked for",
  "Session-present is reported exactly when a session for that client id still exists and no clean start was asked, and a resumed session still has all its subscriptions and pending messages while a fresh one has none. A session ends at clean start, at disconnect when its expiry is 0 (or a v3 clean session), or once its expiry interval (capped by the configured maximum, possibly changed at disconnect) has passed off-line, and not earlier.",
  ["histories", "schedules"], "all connect/disconnect/time sequences, protocol versions, expiry values and limits",
  "Needs a controlled clock over many connect cycles; tests wait a second or two for one cycle.",
  ["subscriptionstore.cpp", "session.cpp", "mqttpacket.cpp", "client.cpp"],
  [("session registry", "subscriptionstore.cpp: registerClientAndKickExistingOne"), ("expiry queue", "subscriptionstore.cpp: queueSessionRemoval/removeExpiredSessionsClients")], observe=MB)
p("S02", "One live connection per client id; takeover hands over the session",
  "When a client id connects while already connected, the older connection is closed (with reason session-taken-over for v5) and the new one gets the session according to its own clean-start choice. Nothing of the old connection (will, keep-alive, acknowledgements, disconnect handling) affects the new one afterwards.",
  ["histories", "schedules"], "all takeover sequences incl. clean/unclean, wills, in-flight messages, threads",
  "Takeover races across threads and with pending clean-up; tests do a single takeover.",
  ["subscriptionstore.cpp", "client.cpp", "session.cpp", "threaddata.cpp"],
  [("kick", "subscriptionstore.cpp: registerClientAndKickExistingOne"), ("assigning client", "session.cpp: assignActiveConnection")], observe=MB)
p("S03", "Keep-alive: silent clients are dropped, active ones are not",
  "A client that sends nothing for clearly more than one and a half times its keep-alive interval (the one it asked for, or for v5 the Server Keep Alive of the CONNACK) is disconnected (publishing its will), while one that sends any packet within the interval never is, and a keep-alive of 0 in force disables the check. A connection that never completes CONNECT is dropped within a bounded time.",
  ["schedules", "histories"], "all keep-alive values and activity patterns in time",
  "Needs hours of virtual time; tests check one short value or none.",
  ["threaddata.cpp", "client.cpp", "threadloop.cpp"],
  [("keep-alive wheel", "threaddata.cpp: doKeepAliveCheck"), ("expiry test", "client.cpp: keepAliveExpired")], observe=MB)
p("W01", "A will is published exactly when the connection ends abnormally",
  "The will given at connect is published exactly once, with its topic, payload, QoS, retain flag and properties, when the connection ends in any way other than a normal DISCONNECT (v5 'disconnect with will' counts as abnormal), and never after a normal one. Wills can be disabled by configuration and are subject to the publisher's permissions.",
  ["histories", "fault_sequences"], "all ways a connection can end (close, reset, keep-alive, protocol error, takeover, disconnect codes), all will contents",
  "Each end path has its own code; tests cover a few.",
  ["client.cpp", "threaddata.cpp", "subscriptionstore.cpp", "mqttpacket.cpp"],
  [("will at client removal", "client.cpp: Client::~Client / threaddata.cpp removal"), ("sendWill", "subscriptionstore.cpp: sendWill/queueOrSendWillMessage")], observe=MB)
p("W02", "Delayed wills appear after their delay or at session end, unless cancelled",
  "A will with a delay is published once the delay has passed or the session ends, whichever is first, and not before. Reconnecting to the session within the delay cancels it, and a session that is replaced or taken over keeps the will of the new connection intact.",
  ["histories", "schedules"], "all delays, session expiries, reconnect times and takeovers",
  "Requires precise control over virtual time and order of the will queue; tests use one or two delays.",
  ["subscriptionstore.cpp", "session.cpp", "types.cpp"],
  [("pending wills by time", "subscriptionstore.cpp: queueWillMessage/sendQueuedWillMessages"), ("cancel", "session.cpp: clearWill")], observe=MB)
p("A01", "ACL rules decide every publish, delivery, retained message and will",
  "With an ACL file a client's publish or will takes effect exactly if the rules (user, anonymous and pattern rules with %u/%c, deny overriding, wildcards) grant it write access to that topic, and it receives a live, queued, retained or will message exactly if they grant it read access. A refused QoS>0 publish is still acknowledged (v5: not authorised) and leaks nothing to anyone.",
  ["inputs", "configurations"], "all rule files, users, client ids, topics, access paths",
  "Tests check fixed rule files; rule combinations and the many delivery paths multiply.",
  ["acltree.cpp", "plugin.cpp", "client.cpp", "session.cpp", "subscriptionstore.cpp", "mqttpacket.cpp"],
  [("permission tree", "acltree.cpp: findPermission"), ("check call sites", "plugin.cpp: aclCheck and callers")], observe=MB)
p("A02", "Only clients with valid credentials get in",
  "A CONNECT is accepted exactly if the user/password pair matches the password file, or the listener/global anonymous setting admits it (unknown users only); a wrong password for an existing user is always refused. The decision follows changes of the password file after the reload interval and does not depend on other connections.",
  ["inputs", "configurations", "histories"], "all password files (both hash formats, malformed lines), credentials, anonymous settings, reloads",
  "Tests check a couple of users; malformed lines, binary passwords, empty fields and reload histories are not covered.",
  ["plugin.cpp", "mqttpacket.cpp", "utils.cpp", "listener.cpp"],
  [("password check", "plugin.cpp: loginCheck/loginCheckFromMosquittoPasswordFile"), ("connect handling", "mqttpacket.cpp: handleConnect")], observe=MB)
p("A03", "An unauthenticated connection can do nothing but authenticate",
  "Before a successful CONNECT no packet has any effect on or learns anything from sessions, subscriptions, retained messages or other clients, and such connections are closed. A second CONNECT, or client ids and user names with wildcard characters (unless allowed by configuration), are refused without effect.",
  ["histories", "inputs"], "all packet sequences before/around CONNECT, all ids and names, refused CONNECTs",
  "Tests send few out-of-order packets.",
  ["mqttpacket.cpp", "client.cpp"],
  [("authenticated gate", "mqttpacket.cpp: MqttPacket::handle"), ("character checks", "mqttpacket.cpp: handleConnect, utils.cpp: containsDangerousCharacters")], observe=MB)
p("A04", "Network policies see the right peer address",
  "A listener's allow/deny networks admit exactly the addresses in an allowed network, prefix arithmetic being exact for every IPv4/IPv6 prefix length. On a PROXY-protocol listener the address and client-certificate name are those in a well-formed header and anything else is refused.",
  ["inputs", "configurations"], "all networks, prefix lengths, addresses, PROXY headers",
  "Tests use a few addresses; bit arithmetic at all prefix lengths and malformed headers are not covered.",
  ["network.cpp", "listener.cpp", "haproxy.cpp", "iowrapper.cpp"],
  [("prefix match", "network.cpp: Network::match"), ("header parsing", "iowrapper.cpp: readHaProxyHeader, haproxy.cpp")], observe=MB)
p("P01", "A clean restart preserves sessions, subscriptions, messages and retained state",
  "After a shutdown and restart with a storage directory, every persistent session, its subscriptions with all their options, its pending and half-acknowledged messages, its delayed will, and every retained message behave exactly as if no restart had happened. Nothing that had ended before the restart comes back.",
  ["histories", "crash_points"], "all broker states reachable by generated histories, restarted at any point",
  "Tests save and reload a few objects; equivalence of behaviour after arbitrary histories is not covered.",
  ["sessionsandsubscriptionsdb.cpp", "retainedmessagesdb.cpp", "persistencefile.cpp", "subscriptionstore.cpp", "session.cpp"],
  [("session file", "sessionsandsubscriptionsdb.cpp: saveData/readDataV*"), ("retained file", "retainedmessagesdb.cpp: saveData/readData")], observe=MB)
p("P02", "A crash or I/O error while saving never loses the previous saved state",
  "If the process dies, or a write, flush or rename fails, at any point while state is being saved, the next start loads either the complete previous state or the complete new one. A failed save never stops the broker from serving.",
  ["crash_points", "fault_sequences"], "every system call of a save as crash point or fault, all states",
  "No test injects faults or kills the process.",
  ["persistencefile.cpp", "persistencefunctions.cpp", "subscriptionstore.cpp"],
  [("write to temporary then rename", "persistencefile.cpp: openWrite/closeFile")], observe="files in the storage directory and state after restart")
p("P03", "Damaged state files never crash the broker or admit corrupt data",
  "With truncated, bit-flipped, swapped or foreign state files the broker either starts and serves without the damaged state (keeping the damaged file aside) or exits with an error; it never crashes, hangs, over-allocates or serves altered messages from a file that fails its integrity check.",
  ["inputs", "fault_sequences"], "all byte-level damage to any state file of any format version",
  "Tests damage no or one file.",
  ["persistencefile.cpp", "sessionsandsubscriptionsdb.cpp", "retainedmessagesdb.cpp", "bridgeinfodb.cpp"],
  [("hash check", "persistencefile.cpp: verifyHash/openRead")], observe="process exit status and client sockets after start")
p("P04", "Lifetimes keep counting across a restart",
  "Session expiry, will delay, message expiry and retained expiry measured from their original start are unaffected by a restart: with d seconds remaining at shutdown and t seconds of down time, d-t remain afterwards (ended if not positive). A restart neither shortens nor renews any of them.",
  ["histories", "schedules"], "all lifetimes, moments of save/restart and down times, repeated restarts",
  "Needs a controlled clock spanning processes; tests check one value without time passing.",
  ["sessionsandsubscriptionsdb.cpp", "retainedmessagesdb.cpp", "subscriptionstore.cpp", "types.cpp"],
  [("age bookkeeping in files", "sessionsandsubscriptionsdb.cpp, retainedmessagesdb.cpp"), ("time restore", "utils.cpp: timepointFromAge")], observe=MB)
p("F01", "No byte stream crashes the broker or harms other clients",
  "Whatever bytes a connection sends, in whatever order and at whatever stage, the broker keeps running without memory errors and other clients keep getting their service and messages undisturbed.",
  ["inputs", "histories"], "all byte streams and packet sequences on MQTT, websocket and PROXY listeners",
  "Tests send well-formed packets; the input space is unbounded.",
  ["mqttpacket.cpp", "iowrapper.cpp", "http.cpp", "haproxy.cpp", "client.cpp", "mqtt5properties.cpp"],
  [("bounds-checked parsing", "mqttpacket.cpp: readBytes/advancePos etc."), ("per-client error containment", "threadloop.cpp")], observe="process status, sanitizer reports, sockets of bystander clients")
p("F02", "Behaviour does not depend on how bytes are segmented or pipelined",
  "Splitting the same byte stream into any TCP segments, or pipelining any number of packets before reading, leads to the same packets being processed with the same results. This holds for any packet sizes, also around internal buffer sizes.",
  ["schedules", "inputs"], "all segmentations and pipelining depths of generated sessions",
  "Tests send whole packets.",
  ["client.cpp", "cirbuf.cpp", "mqttpacket.cpp", "iowrapper.cpp"],
  [("framing", "mqttpacket.cpp: bufferToMqttPackets"), ("read loop", "client.cpp: readFdIntoBuffer")], observe=MB)
p("F03", "MQTT over websockets behaves like MQTT over TCP",
  "After a correct upgrade the MQTT byte stream carried in masked binary frames of any sizes, fragmented over TCP segments arbitrarily and interleaved with ping/pong frames, is processed as on plain TCP, and what the broker sends is a valid unmasked binary frame stream carrying the same MQTT bytes. Malformed upgrades and frames only end that connection; pings are answered with the same payload.",
  ["inputs", "schedules"], "all frame splits, sizes (7/16/64 bit lengths), masks, control frames, segmentations",
  "Tests cover few frame sizes.",
  ["iowrapper.cpp", "http.cpp", "client.cpp"],
  [("frame decoder", "iowrapper.cpp: websocketBytesToReadBuffer"), ("frame encoder", "iowrapper.cpp: writeAsMuchOfBufAsWebsocketFrame")], observe=MB)
p("F04", "Malformed packets are refused and valid ones are not",
  "Packets from clients that violate the protocol (ill-formed UTF-8 or control characters in strings, wildcards in publish topics, malformed filters, zero packet ids, QoS 3, wrong flag bits, wrong or duplicate properties, fields or properties that don't fit in the packet, surplus bytes in CONNECT, wrong protocol name or version) end the connection or are answered with an error, without taking effect. Every packet conforming to the specification and the configured limits is accepted and takes effect.",
  ["inputs"], "all packets of all types and versions, valid and with each kind of defect",
  "Tests contain a few malformed packets; UTF-8 and lengths are processed 16 bytes at a time, so position matters.",
  ["mqttpacket.cpp", "utils.cpp", "threadlocalutils.cpp", "mqtt5properties.cpp"],
  [("UTF-8 validation", "threadlocalutils.cpp: isValidUtf8"), ("filter validation", "utils.cpp: isValidSubscribePath"), ("packet parsing", "mqttpacket.cpp: parse*Data")], observe=MB)
p("C01", "Configuration takes effect as written, and a bad reload changes nothing",
  "Every documented option value is accepted with its documented meaning and every unknown option or invalid value makes start-up (and the configuration test mode) fail with an error rather than being ignored. Reloading an invalid configuration leaves the running broker, its listeners, sessions and messages as they were, and a valid reload disturbs no connected client.",
  ["configurations", "histories"], "all option/value combinations, quoting, includes, reload sequences",
  "Tests parse a few files.",
  ["configfileparser.cpp", "settings.cpp", "mainapp.cpp"],
  [("two-pass load", "mainapp.cpp: loadConfig"), ("key validation", "configfileparser.cpp: testKeyValidity")], observe="exit status of the test mode, client sockets")
p("B01", "A bridge relays exactly the configured topics, both ways, without loops",
  "A bridge and the other side exchange exactly the messages matching the configured publish/subscribe filters, with the local/remote prefixes swapped as configured, payload and retain flag intact and QoS capped by configuration and the other side's limits, each once and in order. Messages never come back over the bridge they came in by; queued ones resume after reconnects and restarts, and a reload applies the changed bridge.",
  ["configurations", "histories"], "all prefixes, filters, QoS and publish/reconnect sequences",
  "Tests use fixed prefixes and short histories.",
  ["bridgeconfig.cpp", "client.cpp", "threaddata.cpp", "mqttpacket.cpp"],
  [("prefix mapping", "mqttpacket.cpp/publishcopyfactory.cpp local/remote prefix"), ("bridge client", "threaddata.cpp: bridge connect")], observe="bytes on sockets of the other side and of local clients")
p("G01", "Plugins see true arguments and their decisions bind",
  "For every login, ACL and publish/subscribe alteration callback the plugin receives the true client id, user name, topic, payload, QoS, retain flag and properties, and its answer is enforced on that operation only. Exceptions or denials in the plugin never let an operation through.",
  ["inputs", "histories"], "all operations and plugin answers, incl. altered topics/payload QoS and asynchronous authentication",
  "The test plugin answers fixed cases.",
  ["plugin.cpp", "flashmq_plugin.cpp", "client.cpp", "mqttpacket.cpp"],
  [("plugin dispatch", "plugin.cpp: aclCheck/loginCheck/alterPublish/alterSubscribe")], observe="log of a recording plugin and client sockets")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
