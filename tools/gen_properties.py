#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that entries stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["libamqpprox/" + f if "/" not in f else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "An open session is a byte-transparent pipe in both directions",
  "Once a session is open, the bytes the broker receives are exactly the bytes the client sent after its handshake, in order, none lost, duplicated, altered or interleaved with anything else, and the same holds from broker to client. "
  "At every moment what has been delivered is a prefix of what was sent, and when both peers keep reading, everything sent as whole frames is eventually delivered.",
  ["schedules", "inputs"],
  "every segmentation of the two byte streams into reads, every partial-write pattern, every frame size up to the maximum, every interleaving of the two directions",
  "Session tests feed one frame per read and complete every write at once; segmentations x partial writes x interleavings are unbounded.",
  ["amqpprox_session.cpp", "amqpprox_session.h", "amqpprox_packetprocessor.cpp", "amqpprox_frame.cpp", "amqpprox_bufferpool.cpp", "amqpprox_bufferhandle.cpp"],
  [("read pump", "Session::readData/handleData"), ("write pump", "Session::handleWriteData"), ("frame splitting", "PacketProcessor::process, Frame::decode"), ("carry-over of partial frames", "Session::copyRemaining")],
  [("read buffers and watermarks", "bytes of an incomplete frame kept for the next read")],
  ["bytes on the two sockets"])

p("C02", "Both sides see the AMQP handshake in protocol order, backend only after Open",
  "A well-behaved client receives Start, Tune and OpenOk exactly once each and in that order, and a well-behaved broker receives the protocol header, StartOk, TuneOk and Open exactly once each and in that order, each only after the message it answers. "
  "No backend is contacted before the client has named its vhost, the client is told the connection is open only after the broker said so, and a client cannot make the proxy treat client-sent messages as the broker's answers. "
  "When both peers follow the protocol the handshake always completes.",
  ["schedules", "inputs", "histories"],
  "every segmentation and interleaving of the handshake messages, heartbeats at any point, and every out-of-order or wrong-direction connection method at every handshake state",
  "The tests drive one canonical order with a few fixed deviations.",
  ["amqpprox_connector.cpp", "amqpprox_session.cpp", "amqpprox_packetprocessor.cpp"],
  [("handshake state machine", "Connector::receive"), ("connection creation", "Session::establishConnection")],
  [("connector state", "which handshake message is expected next")],
  ["bytes on both sockets, connect attempts"])

p("C03", "Handshake contents reach the broker unchanged apart from the proxy's identity",
  "The broker sees the client's own client-properties (every field, type, value and order), mechanism, credentials, locale, tuned limits and vhost, except that the proxy appends its client and host identification fields, and that an allowing auth decision may replace mechanism and credentials and append its reason. "
  "Every handshake message that is decoded and re-encoded carries the same values, for all AMQP field types including nested tables and arrays.",
  ["inputs"],
  "all field-table shapes over the full alphabet of AMQP field types up to a size and nesting bound, all boundary lengths of strings",
  "Round-trip tests cover a few hand-written tables.",
  ["amqpprox_types.cpp", "amqpprox_fieldtable.cpp", "amqpprox_fieldvalue.cpp", "amqpprox_connectorutil.cpp", "amqpprox_connector.cpp", "amqpprox_methods_startok.cpp", "amqpprox_methods_tuneok.cpp", "amqpprox_methods_open.cpp", "amqpprox_methods_close.cpp"],
  [("field table codec", "Types::decodeFieldTable/encodeFieldTable"), ("identity injection", "ConnectorUtil::injectProxyClientIdent"), ("credential substitution", "Connector::setAuthMechanismCredentials")],
  None, ["the StartOk/TuneOk/Open bytes the broker receives"])

p("C04", "No peer input can crash the proxy or read or write outside its buffers",
  "Whatever bytes a client or a broker sends, in whatever segmentation, the proxy never crashes, never touches memory outside the received data and never loops or recurses without bound. "
  "Input that is not a well-formed handshake or frame ends that one session, both of whose sockets are then closed, and leaves every other session untouched.",
  ["inputs", "histories"],
  "every byte string up to a bound at every handshake state and in the open state, all truncations and single-byte corruptions of valid messages, deep nesting, frames of every declared length",
  "Fuzzing is listed as not done in the session tests; decode tests use valid or a few truncated inputs.",
  ["amqpprox_types.cpp", "amqpprox_frame.cpp", "amqpprox_method.cpp", "amqpprox_packetprocessor.cpp", "amqpprox_connector.cpp", "amqpprox_session.cpp", "amqpprox_methods_start.cpp", "amqpprox_methods_tune.cpp"],
  [("bounds checks", "Types::decode*, Frame::decode, Method::decode"), ("error containment", "Session::handleData")],
  None, ["process health, socket closes"])

p("C05", "No broker is contacted for a client that was not explicitly allowed",
  "When an authentication service is configured, a backend connection is opened for a session only after the service answered that request with a success status and a well-formed response whose decision is ALLOW; a DENY, an unknown decision, an error status, an undecodable or cut-off answer, a refused or reset connection all leave the client disconnected with no broker contact. "
  "Each session asks exactly once per connection attempt with its own vhost, credentials and client identity, and a decision that arrives after the session ended has no effect.",
  ["inputs", "fault_sequences", "schedules"],
  "every status/body/truncation of the service's answer, every failure point of the exchange, every time the answer can arrive relative to client and control actions",
  "Tests use a mock that answers at once; the HTTP client is never exercised.",
  ["amqpprox_httpauthintercept.cpp", "amqpprox_session.cpp", "amqpprox_defaultauthintercept.cpp", "authproto/authresponse.proto"],
  [("auth gate", "Session::establishConnection auth callback"), ("HTTP exchange", "HttpAuthIntercept::onResolve/onConnect/onWrite/onRead")],
  None, ["connect attempts to backends, HTTP requests"])

p("C06", "A refused client is told why in AMQP terms and then disconnected",
  "A client that is refused gets at most one explanation, sent before its socket is closed: its own protocol header when it spoke another protocol, a 403 close with the auth service's reason (cut to 255 bytes) if and only if it declared it understands such a close, a 506 close naming the vhost when no broker is mapped or when it is rate limited, and the broker's own close code and text when the broker rejects the handshake. "
  "Afterwards both sockets of that session are closed and nothing more is forwarded.",
  ["inputs", "configurations", "schedules"],
  "every refusal reason at every handshake position, all client capability tables, reasons of all lengths",
  "Tests check single examples of some of the refusals.",
  ["amqpprox_session.cpp", "amqpprox_connector.cpp", "amqpprox_closeerror.h", "amqpprox_reply.cpp"],
  [("auth refusal", "Session::disconnectUnauthClient"), ("mapping and limit refusal", "Session::establishConnection"), ("broker refusal", "Session::handleData CloseError")],
  None, ["bytes the client receives before close"])

p("C07", "A vhost is always routed as the current configuration says",
  "A new connection goes to the backend or farm its vhost is explicitly mapped to at that moment, else to the default farm if one is set, else it is refused; a mapping that names a farm or backend that does not exist refuses the connection instead of falling back. "
  "The outcome depends only on the sequence of accepted configuration commands, and vhosts never influence one another.",
  ["histories", "configurations"],
  "every sequence of map, unmap, default, farm and backend commands up to a bound, interleaved with connections of several vhosts",
  "Tests check single lookups after a short fixed setup.",
  ["amqpprox_connectionselector.cpp", "amqpprox_resourcemapper.cpp", "amqpprox_mapcontrolcommand.cpp", "amqpprox_farmstore.cpp", "amqpprox_backendstore.cpp"],
  [("route lookup", "ConnectionSelector::acquireConnection"), ("mapping table", "ResourceMapper")],
  None, ["the backend a session connects to"])

p("C08", "Failover tries every candidate endpoint once, in order, and stops at success",
  "If connecting to a backend fails, the session tries the remaining resolved addresses of that backend and then the farm's remaining backends, each exactly once and in selection order, and uses the first that accepts. "
  "When all have failed, and only then, the client is disconnected; a backend that fails to resolve is skipped, and one client's failures do not affect other sessions.",
  ["fault_sequences", "configurations"],
  "every pattern of resolve and connect failures over farms of up to several backends with several addresses each",
  "Tests cover a couple of fixed failure patterns.",
  ["amqpprox_session.cpp", "amqpprox_connectionmanager.cpp", "amqpprox_robinbackendselector.cpp"],
  [("retry loop", "Session::attemptConnection/attemptResolvedConnection/handleConnectionError")],
  [("retry counter and endpoint index", "which candidate is tried next")],
  ["connect attempts"])

p("C09", "Farm candidates are exactly its members, local datacenter first",
  "For any farm, the candidates offered to a session are exactly the farm's current member backends, each once, and with the datacenter affinity policy every backend of the proxy's own datacenter comes before every other backend. "
  "Changes of membership, policy, datacenter or of the backends themselves take effect for the next session and never make the proxy use a backend that has been removed.",
  ["histories", "configurations"],
  "every sequence of farm, backend, partition and datacenter commands up to a bound, over several backends and datacenters",
  "Tests build one static farm per case.",
  ["amqpprox_farm.cpp", "amqpprox_farmcontrolcommand.cpp", "amqpprox_affinitypartitionpolicy.cpp", "amqpprox_backendset.cpp", "amqpprox_robinbackendselector.cpp", "amqpprox_datacentercontrolcommand.cpp", "amqpprox_backendstore.cpp"],
  [("partitioning", "Farm::doRepartitionWhileLocked, AffinityPartitionPolicy::partition"), ("selection", "RobinBackendSelector::select")],
  None, ["candidate sequence"])

p("C10", "Round robin gives successive sessions successive backends",
  "Sessions routed to the same farm start at successive backends of its first non-empty partition: over any run of as many sessions as that partition has healthy members, each member is the first choice exactly once, for every farm size. "
  "Routing to one farm does not disturb the rotation of another.",
  ["histories", "configurations"],
  "every number of backends, every interleaving of sessions over several farms",
  "Tests check the selector alone with hand-fed counters, not the sequence of sessions.",
  ["amqpprox_robinbackendselector.cpp", "amqpprox_connectionmanager.cpp", "amqpprox_backendset.cpp", "amqpprox_session.cpp"],
  [("rotation marker", "BackendSet::markPartition, RobinBackendSelector::select")],
  [("partition marker", "rotation position shared by all sessions of a farm")],
  ["first backend contacted per session"])

p("C11", "Connection rate limits admit exactly the configured number per window",
  "In each one-second window at most the configured number of connections is admitted for a limited vhost and connections below the limit are always admitted; a vhost's own limit takes precedence over the default, removing it restores the default, and vhosts are counted separately. "
  "Alarm-only limits never refuse a connection and never consume the enforcing limit's budget.",
  ["histories", "configurations"],
  "every sequence of limit commands, connections and clock advances up to a bound over several vhosts",
  "Tests use fixed sequences and real clocks for few cases.",
  ["amqpprox_connectionlimitermanager.cpp", "amqpprox_fixedwindowconnectionratelimiter.cpp", "amqpprox_limitcontrolcommand.cpp", "amqpprox_connectionselector.cpp"],
  [("window counter", "FixedWindowConnectionRateLimiter::allowNewConnection"), ("limit precedence", "ConnectionLimiterManager::allowNewConnectionForVhost")],
  None, ["admission decisions"])

p("C12", "Data rate limits throttle, never lose bytes and never stall a client",
  "A client limited to N bytes per second has no further read started once N bytes were read in the current second, yet every byte it sent is eventually read in order and reading always resumes with the next second, however reads, timer expiries and limit changes interleave. "
  "Alarm-only limits never delay reading, and a changed, removed or vhost-specific limit is applied to running sessions.",
  ["schedules", "histories", "configurations"],
  "every interleaving of reads of all sizes, timer expiry, timer cancellation and limit changes, plain and TLS",
  "Tests check a few hand-driven timer sequences.",
  ["amqpprox_maybesecuresocketadaptor.h", "amqpprox_dataratelimit.cpp", "amqpprox_dataratelimitmanager.cpp", "amqpprox_limitcontrolcommand.cpp", "amqpprox_session.cpp"],
  [("quota", "DataRateLimit"), ("deferred read", "MaybeSecureSocketAdaptor::async_read_some/onTimer")],
  None, ["read completions over time"])

p("C13", "When either side goes, both sockets close and the session is finished",
  "Whatever ends a session - end of stream, reset, failed read, write or TLS handshake on either side, or an operator's forced disconnect, at any moment of handshake or data transfer - both of its sockets end up closed, the session becomes removable with the right disconnect reason and no further bytes are written to either peer. "
  "An operator's backend disconnect closes the broker side likewise and makes the session removable.",
  ["fault_sequences", "schedules"],
  "every kind of failure injected at every socket operation of a session, in every order relative to other pending operations",
  "Tests inject a handful of errors at fixed points.",
  ["amqpprox_session.cpp", "amqpprox_sessioncontrolcommand.cpp", "amqpprox_vhostcontrolcommand.cpp"],
  [("error handling", "Session::handleSessionError"), ("forced disconnect", "Session::disconnect, performDisconnectBoth")],
  [("disconnect type", "why the session ended")],
  ["socket closes, session state"])

p("C14", "Graceful disconnect closes client first, then broker, by protocol",
  "An operator's graceful disconnect of an open session sends the client one Close, and only after the client's CloseOk (or Close, or the loss of the client) sends the broker one Close. After the broker's CloseOk both sockets are closed and the session is marked cleanly disconnected; if a peer is lost instead of answering both sockets are closed as well. Asking again changes nothing, and a session that is not open yet is simply ended. "
  "Frames in flight at that moment are either delivered whole or discarded, never cut or mixed with the Close, and every such disconnect terminates.",
  ["schedules", "histories"],
  "the request at every point of an open session, every order of the peers' replies, crossing Close messages and connection losses",
  "One idle happy-path test exists.",
  ["amqpprox_session.cpp", "amqpprox_connector.cpp"],
  [("close handshake", "Connector::receive CLIENT_CLOSE_SENT/SERVER_CLOSE_SENT"), ("synthetic writes", "Session::sendSyntheticData")],
  None, ["bytes on both sockets, socket closes"])

p("C15", "Pausing stops ingress; unpausing resumes handshakes and ends open sessions",
  "While a session is paused nothing read from its client is forwarded or acted on and no backend connection is started for it. "
  "On unpause a session whose connection attempt was held back by the pause goes on to connect and then works normally, even if the client sent data meanwhile, and any other paused session is disconnected; data from the broker keeps flowing while paused.",
  ["schedules", "histories"],
  "pause and unpause at every point of handshake, backend selection, authentication and data transfer, with client data arriving at any time",
  "Tests pause at one or two fixed points with no client data.",
  ["amqpprox_session.cpp", "amqpprox_vhostcontrolcommand.cpp", "amqpprox_vhostestablishedpauser.cpp", "amqpprox_vhoststate.cpp"],
  [("pause flag", "Session::pause/unpause, establishConnection, attemptConnection, readData"), ("vhost pausing", "vhostEstablishedPauser, VhostControlCommand")],
  None, ["bytes and connect attempts while paused and after unpause"])

p("C16", "Statistics account for every byte, frame and connection exactly once",
  "Summed over all reporting periods, the bytes, frames and packets reported overall, per vhost, per backend and per source equal what the sessions transferred, each ended connection is counted once under its disconnect reason, and live, paused, limited and auth-denied counts equal the sessions in that state. "
  "Session removal, reuse of a vhost and switching per-source collection on or off never produce negative, wrapped or double-counted values. Every listener and StatsD server gets one report per period, whole and well formed whatever the names contain, showing exactly these values.",
  ["histories", "schedules"],
  "every sequence of traffic, collection, session end, removal and collection-mode changes up to a bound, over sessions sharing and not sharing vhost, backend and source",
  "Tests check one or two collection cycles.",
  ["amqpprox_statcollector.cpp", "amqpprox_sessioncleanup.cpp", "amqpprox_sessionstate.cpp", "amqpprox_connectionstats.cpp", "amqpprox_statsnapshot.cpp", "amqpprox_packetprocessor.cpp", "amqpprox_statcontrolcommand.cpp", "amqpprox_jsonstatformatter.cpp", "amqpprox_humanstatformatter.cpp", "amqpprox_statsdpublisher.cpp", "amqpprox_control.cpp"],
  [("delta accounting", "StatCollector::collect/deletedSession/populateStats/reset"), ("collection cycle", "SessionCleanup::cleanup"), ("reports", "StatControlCommand, JsonStatFormatter, HumanStatFormatter, StatsDPublisher, ControlSession::sendOutput")],
  None, ["published statistics: STAT LISTEN output, StatsD datagrams"])

p("C17", "An ended session gives back everything it held",
  "After a session has ended, whatever ended it, all of its buffers are back in the pool, its sockets are closed and the session object is destroyed once it is removed and its last pending operation has completed. "
  "The buffer pool always hands out a buffer at least as large as asked that nobody else holds, and its reported usage equals what is held.",
  ["schedules", "fault_sequences", "histories"],
  "every way and moment of ending a session; every sequence of buffer acquisitions and releases up to a bound",
  "Leaks and stale references show only under particular interleavings; tests do not check object lifetime.",
  ["amqpprox_bufferpool.cpp", "amqpprox_bufferhandle.cpp", "amqpprox_buffersource.cpp", "amqpprox_session.cpp", "amqpprox_server.cpp", "amqpprox_sessioncleanup.cpp"],
  [("buffer ownership", "BufferHandle"), ("session removal", "Server::removeSession/clearDefunctSessions, SessionCleanup")],
  None, ["pool statistics, object lifetime"])

p("C18", "PROXY header first, then TLS, then AMQP on every backend connection",
  "On a backend connection the first bytes are a well-formed PROXY v1 line naming the real client address and port exactly when that backend asks for it; then TLS is negotiated exactly when that backend asks for it, and only then AMQP bytes are sent. "
  "Nothing of AMQP is ever sent in clear to a TLS backend, and this holds for each backend tried during failover with that backend's own settings.",
  ["configurations", "fault_sequences", "inputs"],
  "all combinations of the two settings over mixed farms, IPv4 and IPv6 clients, all failover patterns",
  "Tests cover one backend with a PROXY header.",
  ["amqpprox_session.cpp", "amqpprox_proxyprotocolheaderv1.cpp", "amqpprox_backendcontrolcommand.cpp", "amqpprox_maybesecuresocketadaptor.h"],
  [("connection preamble", "Session::attemptEndpointConnection, getProxyProtocolHeader")],
  None, ["bytes and TLS negotiation on backend connections"])

p("C19", "Listening ports accept exactly what the last LISTEN commands say",
  "A port accepts connections exactly while the last accepted command for it was a start, and speaks TLS exactly when that command was the secure one; stopping one port does not affect others or established sessions. "
  "Repeated, conflicting or failing commands, and commands issued back to back, leave the proxy running and listening as the commands say.",
  ["histories", "schedules"],
  "every sequence of listen commands over several ports up to a bound, with connections arriving at any point and commands processed at once or in batches",
  "There is no test of the listening server.",
  ["amqpprox_server.cpp", "amqpprox_listencontrolcommand.cpp"],
  [("acceptor management", "Server::startListening/stopListening/doAccept")],
  [("listening sockets", "port to acceptor map")],
  ["TCP connects to the ports, session properties"])

p("C20", "Event subscribers get every event while subscribed and none after",
  "Each subscriber of an event is invoked exactly once for every emission made while it is subscribed, in whatever order subscriptions are made and dropped, and never for an emission after it unsubscribed or was destroyed. "
  "Subscribing and unsubscribing during delivery is safe and does not affect other subscribers.",
  ["histories", "schedules"],
  "every sequence and nesting of subscribe, unsubscribe and emit up to a bound, from one or two threads",
  "Tests use one or two subscribers in straight-line code.",
  ["amqpprox_eventsourcesignal.h", "amqpprox_eventsource.cpp", "amqpprox_eventsourcesubscription.h"],
  [("subscription list", "EventSourceSignal::subscribe/desubscribe/emit")],
  None, ["callback invocations"])

p("C21", "Name resolution answers each request once, asynchronously, with fresh data",
  "Every resolution request gets exactly one answer, delivered later on the event loop, holding the addresses of that host and port; only successful answers are cached, a failure is never repeated from the cache, and cached answers are dropped once the cache timeout has passed while cleanup is running. "
  "Different hosts or ports never share answers.",
  ["histories", "fault_sequences"],
  "every sequence of requests, outcomes, time advances and cache operations up to a bound",
  "Tests cover a few single requests.",
  ["amqpprox_dnsresolver.h", "amqpprox_dnsresolver.cpp"],
  [("cache", "DNSResolver::resolve/cleanupCache")],
  None, ["callbacks"])

p("C22", "Configuration may change while connections are made, with no torn view",
  "Operator commands run concurrently with connection set-up without data corruption, use of freed objects or deadlock, and each connection decision equals one that would have resulted with every command applied either entirely before or entirely after it. "
  "A vhost pause or unpause racing with new connections leaves every session of that vhost in the state of the last command.",
  ["schedules"],
  "every interleaving, up to a preemption bound, of control-thread commands with connection set-up on the server thread",
  "The tests are single-threaded.",
  ["amqpprox_connectionselector.cpp", "amqpprox_farmstore.cpp", "amqpprox_farm.cpp", "amqpprox_backendstore.cpp", "amqpprox_resourcemapper.cpp", "amqpprox_connectionlimitermanager.cpp", "amqpprox_vhoststate.cpp", "amqpprox_vhostestablishedpauser.cpp", "amqpprox_dataratelimit.cpp"],
  [("store locking", "FarmStore, BackendStore, ResourceMapper, ConnectionLimiterManager, VhostState")],
  None, ["routing decisions, session pause state, sanitizer"])

p("C23", "TLS-terminated reads deliver exactly the decrypted bytes",
  "For a TLS client the bytes handed to the session are exactly the decrypted stream, in order and complete, for every record and read size, including the byte consumed to detect readability; an orderly or abrupt end of stream is reported only after all earlier bytes were delivered. "
  "The amount reported as readable never exceeds what can be read at once without blocking.",
  ["schedules", "inputs"],
  "every split of the decrypted stream into records and reads, would-block and errors at every point",
  "Tests check a few fixed sequences of the adaptor.",
  ["amqpprox_maybesecuresocketadaptor.h"],
  [("readability byte", "MaybeSecureSocketAdaptor::async_read_some/read_some/available")],
  [("small buffer", "one decrypted byte read ahead")],
  ["bytes returned by reads"])

p("C24", "Control commands are all-or-nothing and never disturb the proxy",
  "Every command line, well-formed or not, gets an answer and leaves the proxy running; a rejected command changes no configuration, an accepted one changes exactly what it names, and what is printed back describes the configuration in force. "
  "Commands and keywords are recognised regardless of letter case wherever documented as keywords.",
  ["inputs", "histories"],
  "every command line over the command grammar with tokens missing, surplus, malformed or naming unknown objects, and every short sequence of them",
  "Tests cover a few command lines of some commands.",
  ["amqpprox_farmcontrolcommand.cpp", "amqpprox_backendcontrolcommand.cpp", "amqpprox_mapcontrolcommand.cpp", "amqpprox_limitcontrolcommand.cpp", "amqpprox_datacentercontrolcommand.cpp", "amqpprox_vhostcontrolcommand.cpp", "amqpprox_authcontrolcommand.cpp", "amqpprox_sessioncontrolcommand.cpp", "amqpprox_listencontrolcommand.cpp", "amqpprox_control.cpp"],
  [("command parsing", "*ControlCommand::handleCommand")],
  None, ["command output, configuration prints"])

p("C25", "The programs do what their command line and the control socket say",
  "amqpprox started with all simple-mode options listens on the given port and relays clients of every vhost to the given destination; with incomplete simple-mode options, an unknown option, --help or a verbosity above 5 it says so, ends with a non-zero status and leaves whatever is at the control socket's path alone. "
  "Otherwise it replaces a stale control socket and runs, every documented command takes effect on that process's traffic, ended sessions are cleaned up and statistics reported every clean-up interval, and EXIT is answered, closes every connection, removes the control socket and ends with status 0. "
  "amqpprox_ctl sends its arguments joined by single spaces as one line, prints the whole answer unchanged as it arrives and ends with status 0, or with a non-zero status and a message if it could not send the command.",
  ["inputs", "histories"],
  "every combination of command line options, every short sequence of commands, clients and departures against the running program, every split and size of an answer",
  "No test starts either program: main() and the wiring of its parts are not covered at all.",
  ["amqpprox/amqpprox.m.cpp", "amqpprox_ctl/client.m.cpp", "amqpprox_control.cpp", "amqpprox_exitcontrolcommand.cpp", "amqpprox_helpcontrolcommand.cpp"],
  [("wiring", "main() of amqpprox"), ("one command", "main() of amqpprox_ctl")],
  None, ["exit status, standard output, control socket, loopback connections"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        f.write(json.dumps(e) + "\n")
print(len(P), "properties")
