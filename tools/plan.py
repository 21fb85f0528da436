"""What each check runs."""
# library files a harness does not need (compiled only if it turns out it does)
CTL = ["*controlcommand", "control", "httpauthintercept", "server", "statsdpublisher", "*statsd*", "*formatter", "*humanstat*", "*jsonstat*", "*statssnapshot*", "sessioncleanup", "*pauser"]
HARNESSES = {
    "session": dict(flavour="asan", skip=CTL, sources=["session/main.cpp", "session/world.cpp", "session/scenarios.cpp", "common/explore.cpp", "common/vtime.cpp"]),
    "config": dict(flavour="asan", sources=["config/main.cpp", "config/cworld.cpp", "config/cscen.cpp", "config/c24.cpp", "common/explore.cpp", "common/vtime.cpp"]),
    "unit": dict(flavour="asan", skip=CTL, sources=["unit/main.cpp", "unit/codec.cpp", "unit/events.cpp", "unit/dns.cpp", "unit/pool.cpp", "unit/stats.cpp", "common/explore.cpp", "common/vtime.cpp"]),
    "report": dict(flavour="asan", sources=["report/main.cpp", "common/explore.cpp", "common/vtime.cpp"]),
    "net": dict(flavour="asan", real_time=True, deadline={"quick": 240, "thorough": 3000},
                sources=["net/main.cpp", "net/nworld.cpp", "net/adaptor.cpp", "net/e2e.cpp", "net/auth.cpp", "config/cworld.cpp", "common/explore.cpp", "common/vtime.cpp"]),
    "prog": dict(flavour="asan", real_time=True, deadline={"quick": 240, "thorough": 3000}, programs=["amqpprox", "amqpprox_ctl"], ldextra=["-lboost_program_options"],
                 sources=["prog/main.cpp", "net/nworld.cpp", "config/cworld.cpp", "common/explore.cpp", "common/vtime.cpp"]),
    "thr": dict(flavour="thr", real_time=True, deadline={"quick": 300, "thorough": 3000},
                sources=["thr/main.cpp", "thr/rt.cpp", "thr/tcfg.cpp", "thr/tnet.cpp", "net/nworld.cpp", "config/cworld.cpp", "common/explore.cpp", "common/vtime.cpp"]),
}
NET = "stateless model checking of the running proxy (real Server, sessions, commands, TLS and sockets) against loopback peers"
NETA = ["real loopback TCP connections and real TLS; clients, brokers, the operator and the clock are driven by the exploration, one step at a time",
        "all sequences up to the stated depth are executed; a peer's bytes are taken to have arrived when the event loop has gone idle"]
CONF = "stateless model checking of the real control commands, stores and selectors against a reference model"
CFG = ["every command line is executed by the real command classes on the real stores, wired as main() wires them; clock and name service are simulated",
       "all sequences up to the stated depth are executed; names, values and depth are bounded as stated"]
SIM = ["peers, network, name service and clock are simulated; event-loop handlers, session, parser, connector and all stores are the real code",
       "deviations from the three default schedules are bounded as stated; everything within the bound is explored"]
UNIT = "exhaustive enumeration of inputs and operation sequences on the real component against a reference model"
UNI = ["the component is the real code, its memory watched by the address sanitizer; name service and clock are simulated",
       "all inputs and operation sequences within the stated bounds are executed"]
THR = "stateless model checking of the real code under a controlled thread scheduler (preemption bounded), with happens-before race detection on every schedule"
THRA = ["operator commands (and the periodic clean-up) run on one thread, connections or the whole server on another; the scheduler switches threads only at lock and atomic operations made by the proxy's code, which loses nothing on schedules free of data races, and races are detected",
        "accesses inside OpenSSL and libstdc++ binaries are not monitored, apart from tree and list surgery",
        "loopback sockets and simulated clock; name lookups are answered at once"]
PROG = "stateless model checking of the two programs themselves, as processes, against a reference model of what their command lines and commands do"
PROGA = ["each execution starts the real main() in a process of its own (address sanitizer, logging back end left out) in real time; what must happen is waited for, what must not happen is looked for once everything else has happened",
         "thread schedules inside the process are those the machine takes (C22 explores them)"]
SESS = "stateless model checking of the real Session against simulated peers"
def S(bounds, harness=("session",), assumptions=SIM, technique=SESS):
    return dict(harness=list(harness), assumptions=list(assumptions), technique=technique, bounds=bounds)
CHECKS = {
    "C01": S("1 client, 3 base schedules, 3 scheduling deviations or 2 scheduling/segmentation deviations"),
    "C02": S("all handshake message orders, early and repeated messages from either peer, 3 base schedules, 2 deviations"),
    "C03": S("handshake content variants (properties, mechanisms, tuning, vhosts), 3 base schedules, 1 deviation; codec: all table bodies of up to 5 bytes over 15 byte values, every pair of field values, nesting to 19000, every cut and every changed byte of each message", ("session", "unit"), SIM + UNI, SESS + "; " + UNIT),
    "C04": S("codec: all table bodies of up to 5 bytes over 15 byte values, every cut and every changed byte of each message, nesting to 19000, all frame headers over 22 lengths and 9 types; session: every changed byte (all values in frame and method headers, 11 elsewhere), every shortening and 16 kinds of garbage at each of 9 stages, beside an undisturbed session", ("unit", "session"), UNI + SIM, UNIT + "; " + SESS),
    "C05": S("session: every auth answer kind, each moment of arrival, request contents of many lengths, 3 base schedules, 2 deviations; HTTP exchange: 94 answers whole and in two pieces, 12 failures before an answer, 384 request contents, sequences of 3 answers, departures and operator actions over 1-2 clients", ("session", "net"), SIM + NETA, SESS + "; " + NET),
    "C06": S("every refusal kind, 3 base schedules, 2 deviations"),
    "C07": S("sequences of up to 3-4 configuration commands over 2 vhosts, 2-3 backends and 2 farms from 3 starting configurations, routed after each", ("config",), CFG, CONF),
    "C08": S("up to 3 backends of 1-2 addresses each, every combination of outcomes, 2 deviations"),
    "C09": S("all farms of up to 4 members over 3 datacenters, membership and datacenter changes in sequences of up to 4 commands", ("config",), CFG, CONF),
    "C10": S("farms of 1 to 4 members, sequences of sessions, failing members; sequences of commands and sessions against a model of the rotation", ("session", "config"), SIM + CFG, SESS + "; " + CONF),
    "C11": S("sequences of up to 8 configuration commands, connections and clock advances over 2 vhosts, limits 0-3, alarms and defaults", ("config",), CFG, CONF),
    "C12": S("adaptor: sequences of up to 5 sends, reads, timer expiries, event-loop steps and limit changes, plain and TLS; proxy: sequences of 4 LIMIT commands, transfers, clock advances and new sessions; sequences of limits set while sessions of a paused vhost are held", ("net",), NETA, NET),
    "C13": S("every termination cause (peer closes, resets and other errors of reads and writes) at every step, 3 base schedules, 2 further deviations; real server: sequences of 3-4 starts, ends and operator actions over plain, TLS, silent, limited, denied and unmapped clients", ("session", "net"), SIM + NETA, SESS + "; " + NET),
    "C14": S("the request at every step of busy plain and TLS sessions, 6 client and 5 broker reactions to Close, up to 3 base schedules, 2 further deviations (order, partial and blocked writes, segments, lost peers, second requests)"),
    "C15": S("pause and unpause at every step, 3 base schedules, 2 further deviations"),
    "C16": S("sequences of 3-5 transfers, session starts and ends of every kind, pauses, mode changes and collections; sessions running at every point inside a collection; collector: all sequences of 5 transfers, ends, pauses, starts and periods, and up to 1100 sessions at once; reports (JSON, text, StatsD): sessions in every pair of 10 places, 15 sizes of traffic, every filter, all sequences of 4 comings and goings of listeners and servers, full send buffers, listeners that read up to 4 periods late", ("unit", "report", "net"), UNI + NETA, UNIT + "; " + NET),
    "C17": S("every termination cause at every step, 3 base schedules, 2 further deviations; buffer pool: all sequences of 3-4 operations over 3 handles; real server: sequences of 3 starts, ends of every kind and cleanups", ("session", "unit", "net"), SIM + UNI + NETA, SESS + "; " + UNIT + "; " + NET),
    "C18": S("every PROXY/TLS setting of each backend tried, failover, 2 deviations; on the wire: every PROXY/TLS setting of two backends, by name or address, one refusing or none, plain and TLS clients, 3 successive sessions", ("session", "net"), SIM + NETA, SESS + "; " + NET),
    "C19": S("sequences of 3-5 LISTEN commands over 2 ports and an occupied one, processed singly or in batches, with waiting and established clients", ("net",), NETA, NET),
    "C20": S("all sequences of up to 5 subscribe, release, drop, move and emit operations over 3 handles, subscribers that unsubscribe themselves or others, subscribe or emit when called", ("unit",), UNI, UNIT),
    "C21": S("all sequences of 4-5 requests over 3 hosts and ports, answers, clock advances and cache operations, with lookups on the resolver thread and overridden", ("unit",), UNI, UNIT),
    "C22": S("31 commands and their ordered pairs against 1-2 connections from 3 starting configurations, up to 2 preemptions; 42 command sequences of 1-3 against the running server while clients connect, open, exchange data or leave, up to 1-2 preemptions", ("thr",), THRA, THR),
    "C23": S("1-3 records of 1-6 bytes and of 16 KB, every cut of the wire bytes at 4 places, 8 reading patterns, 3 endings; frames in 1-4 records through a session", ("net",), NETA, NET),
    "C25": S("594 command lines (all combinations of 3 values each of the simple-mode options, 5 verbosities, help, unknown option, what is at the control socket's path); all sequences of 2 of 20 commands, client arrivals and departures and of 3 of the first 14, each followed by new clients, clean-up and EXIT; amqpprox_ctl: 11 argument lists, 13 answer sizes, 36 ways to cut each", ("prog",), PROGA, PROG),
    "C24": S("every command line, each with each of its mutations, from 3 starting configurations; sequences of 2-3 lines; lines delivered in pieces; all keyword cases; sequences of 3 session commands over 3-5 running sessions", ("config", "net"), CFG + NETA, CONF + "; " + NET),
}
