CXX = "g++"
STD = "-std=c++14"
SAN = ["-fsanitize=address", "-fsanitize=shift,integer-divide-by-zero,unreachable,return,signed-integer-overflow,bool,bounds,vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
A_BASE = ["x86-64 Linux, gcc, the library's default configuration (asserts active); memory errors are observed through AddressSanitizer",
          "search is bounded by the reported number of generated cases; absence of violations outside them is not established"]
SPECS = {}
NA = {}
def spec(pid, **kw):
    kw.setdefault("assumptions", A_BASE)
    kw.setdefault("technique", "property-based testing against a reference model")
    kw.setdefault("note", "random stateful generation with shrinking; bounded by the number of cases reported in the evidence")
    SPECS[pid] = kw

spec("C01", src="c01.cpp", quick=dict(cases=400000, time=25), thorough=dict(cases=3000000, time=600),
     rule="history: at least two reads and two writes applied to the same set of streams; typed: some values are read before all are written")
spec("C06", src="c06.cpp", quick=dict(cases=1000000, time=25), thorough=dict(cases=6000000, time=600),
     rule="at least one pop crosses a segment boundary and the history contains a rewind or a whole-segment take")
spec("C02", src="c02.cpp", flags=["-D_GLIBCXX_SANITIZE_VECTOR=1"], quick=dict(cases=1000000, time=25), thorough=dict(cases=6000000, time=600),
     rule="reads: the history has both a refused and a granted read; decode: at least four input bytes; header: length within a few bytes of the header size")
spec("C03", src="c03.cpp", quick=dict(cases=400000, time=25), thorough=dict(cases=3000000, time=600),
     rule="blob: two of the values differ in few bits or one word; bits: more than one word and an operation on the upper half of a word")
spec("C04", src="c04.cpp", quick=dict(cases=500000, time=25), thorough=dict(cases=4000000, time=600),
     rule="hex round trip of more than one byte; text that is not valid hex; digest of more than one block")
spec("C05", src="c05.cpp", quick=dict(cases=400000, time=25), thorough=dict(cases=4000000, time=600),
     rule="wire: non-empty payload and at least one corruption that must be refused; history: at least two copy/move/swap operations; hash list of two or more")

A_SCHED = A_BASE + ["interleavings at the granularity of atomic operations under sequential consistency (no weak-memory reordering), one OS thread",
                    "compare_exchange_weak may fail spuriously, as the standard allows"]
SCHED_FLAGS = ["-include", "shim.h", "-Wno-error"]
def qv(which):
    return [{"name": "block%s" % b, "flags": SCHED_FLAGS + ["-DWHICH=%d" % which] + (["-DSALTICIDAE_VERIF_MPMCQ_SIZE=%d" % b] if b != 4096 else [])} for b in (1, 2, 3, 4096)]
spec("C07", src="c07.cpp", repo_src=[], libs=[], variants=qv(1), quick=dict(cases=400000, time=60), thorough=dict(cases=6000000, time=800), assumptions=A_SCHED,
     technique="generated-schedule exploration (random walk and PCT over instrumented atomics) against a FIFO-per-producer model",
     rule="at least two preemptions inside the queue operations and more elements than fit in one block (so blocks are handed over); sequential: rewind or refusal with more than one block")
spec("C08", src="c07.cpp", repo_src=[], libs=[], variants=qv(2), quick=dict(cases=400000, time=60), thorough=dict(cases=6000000, time=800), assumptions=A_SCHED,
     technique="generated-schedule exploration (random walk and PCT over instrumented atomics) against an exactly-once multiset model",
     rule="at least two preemptions inside the queue operations and more elements than fit in one block")
spec("C09", src="c09.cpp", repo_src=["event.cpp", "util.cpp"], libs=["-luv"], flags=SCHED_FLAGS + ["-DVERIF_SHIM_IO", "-DSALTICIDAE_VERIF_MPMCQ_SIZE=4"], quick=dict(cases=250000, time=40), thorough=dict(cases=4000000, time=800), assumptions=A_SCHED,
     technique="generated-schedule exploration (random walk and PCT over instrumented atomics and notification reads/writes) with a lost-wake-up oracle",
     rule="at least two preemptions and at least two handler runs")
spec("C10", src="c10.cpp", repo_src=["event.cpp", "util.cpp"], libs=["-luv"], flags=SCHED_FLAGS + ["-DVERIF_SHIM_IO", "-DSALTICIDAE_VERIF_MPMCQ_SIZE=4"], quick=dict(cases=250000, time=40), thorough=dict(cases=4000000, time=800), assumptions=A_SCHED,
     technique="generated-schedule exploration of callers and executing loop against an exactly-once, in-order call model",
     rule="at least two preemptions and at least two executed calls")
spec("C11", src="c11.cpp", repo_src=[], libs=[], flags=SCHED_FLAGS, quick=dict(cases=600000, time=40), thorough=dict(cases=20000000, time=800), assumptions=A_SCHED,
     technique="model-based stateful testing of the pointer types plus generated-schedule exploration (random walk and PCT) of threads sharing them, with allocation balance",
     rule="sequential: at least five kinds of operation on two or more objects; threads: at least two threads and one preemption inside a pointer operation")
spec("C23", src="c23.cpp", quick=dict(cases=400000, time=25), thorough=dict(cases=6000000, time=500),
     rule="valid: the two compared addresses are built in different ways; invalid: every malformed text counts")
spec("C25", src="c25.cpp", quick=dict(cases=300000, time=25), thorough=dict(cases=6000000, time=500),
     rule="formatting and logging: results longer than 900 characters (around and beyond the internal buffer); split: at least two parts")
spec("C24", src="c24.cpp", quick=dict(cases=150000, time=30), thorough=dict(cases=4000000, time=500),
     rule="config: at least two options declared and two values given; limits: every case")
spec("C28", src="c28.cpp", quick=dict(cases=20000, time=40), thorough=dict(cases=1000000, time=600),
     technique="property-based round-trip and mutation testing of key and certificate encodings",
     rule="key: at least one export/import step; all other tests: every case not discarded")
spec("C26", src="c26.cpp", repo_src=["event.cpp", "util.cpp"], libs=["-luv"], quick=dict(cases=200000, time=40), thorough=dict(cases=4000000, time=600),
     technique="model-based stateful testing on a real libuv loop with a virtual clock (interposed clock and poll), operations also issued from inside callbacks",
     rule="timer: at least two firings; descriptor: at least one readiness callback (timed: and one timeout); signal: one delivered; check: two callbacks",
     assumptions=A_BASE + ["timer resolution is one millisecond of the loop's clock", "one event object per descriptor, as libuv requires"])
SIM_FLAGS = SCHED_FLAGS + ["-DVERIF_SIM", "-DSALTICIDAE_VERIF_MPMCQ_SIZE=4"]
A_SIM = A_BASE + ["threads are simulated on one OS thread and switch at atomic operations, locks, notifications and system calls (sequential consistency)",
                  "TCP is replaced by a stand-in made of in-kernel AF_UNIX pairs with generated short reads/writes, 'would block' results, delays and failures; time is virtual, so 'stalled' means that no thread can run and no timer is pending"]
spec("C12", src="c12.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=35), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="deterministic-simulation property testing: generated schedules, I/O splitting and traffic against a per-stream FIFO oracle",
     rule="more than three messages and at least one kind of short or refused I/O or small kernel buffer in force")

spec("C13", src="c12.cpp", flags=SIM_FLAGS + ["-DWITH_TLS"], quick=dict(cases=20000, time=40), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     rule="more than three messages and at least one kind of short or refused I/O or small kernel buffer in force",
     technique="property-based testing of two real networks over TLS in a deterministic simulation (generated schedules, I/O splitting, back-pressure) against the sent sequences; recorded wire bytes are searched for clear text",
     note="EC certificates made at start; TLS 1.3 as negotiated by OpenSSL 3.0")
spec("C14", src="c14.cpp", flags=SIM_FLAGS + ["-DSALTICIDAE_MSG_STAT"], quick=dict(cases=20000, time=30), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="deterministic-simulation property testing: several sender threads, direct and deferred sends, small queues and unparsable messages, against a per-stream delivery model",
     rule="more than five messages handled and at least one of: small bounded queue, unregistered opcode, refused send, unparsable message")
spec("C15", src="c15.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=30), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="structured fuzzing of the wire input of a real network in a deterministic simulation, against an independent decoder and a concurrently used healthy connection",
     rule="at least one stream holds an oversized, damaged, truncated, unparsable or random message")
spec("C16", src="c16.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=40), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing in a deterministic simulation: generated histories of connects, ends, faults and destruction, with per-connection callback counters and resource accounting",
     rule="more than four operations, at least one connect and at least one termination, cut or failed attempt")
spec("C17", src="c17.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=40), thorough=dict(cases=2000000, time=800), assumptions=A_SIM + ["OpenSSL's handshake itself is trusted to prove possession of the key"],
     technique="property-based testing in a deterministic simulation: generated TLS clients, acceptance decisions, CA checks and broken remote ends against an acceptance model",
     rule="at least one refused client or one broken remote end (plain text, garbage, no certificate, cut handshake)")
spec("C22", src="c22.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=25), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing in a deterministic simulation: generated clients coming, going and being replaced on their addresses, sends from several threads, against a model of the live clients",
     rule="more than three sends and at least one replaced client, absent target, or full send buffer")
spec("C18", src="c18.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=40), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing in a deterministic simulation: generated histories of connection requests, cuts, restarts and registrations on two peers, then convergence to one stable link is required within bounded virtual time",
     rule="at least two operations (requests, faults, restarts, manual connections, re-registrations) before the quiet phase")
spec("C19", src="c19.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=40), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing in a deterministic simulation: generated sends from several threads mixed with link failures at every byte, the recorded wire of every link and the received messages against the sequence of accepted sends",
     rule="at least five messages and a link failure or messages queued before the first link")
spec("C20", src="c20.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=40), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing in a deterministic simulation: generated registry operations from two threads and reachable, refusing, silent and unanswering targets, against a model of the registry, the expected error per ticket and the number of connection attempts",
     rule="at least four registry operations")
spec("C21", src="c21.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=40), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="property-based testing in a deterministic simulation: generated strangers (raw, TLS, honest but unregistered) send generated handshake traffic from both connection directions; oracle: identity registration decides, reports and disconnection are exact, registered links and queues are unaffected",
     rule="strangers sent at least two handshake-level frames")
spec("C27", src="c27.cpp", flags=SIM_FLAGS, quick=dict(cases=60000, time=40), thorough=dict(cases=4000000, time=800), assumptions=A_SIM,
     technique="differential property-based testing: generated histories of C calls mirrored by C++ calls and plain models; networks driven through C against C++ ones in a deterministic simulation",
     rule="values: at least four reads or writes; loop: at least three calls or queued elements; net: at least two messages; crypto: every case")
spec("C33", src="c33.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=35), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing of whole networks in a simulated system (scheduler, clock, sockets): handlers, callbacks and other threads ask whose a connection is at every moment, answers are compared with a model of the registrations",
     rule="at least four questions about a current link and a link was cut, a peer deleted or an address changed")
spec("C32", src="c32.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=35), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing in a simulated system (scheduler, clock, sockets) with injected failures of system calls, against a model of the listening port, the clients to be served and the errors to be reported",
     rule="at least one call fails (listen at a taken port included)")
spec("C31", src="c31.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=35), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="property-based testing in a simulated system (scheduler, clock, sockets): senders push until blocked while the receiver handles nothing, bytes and messages taken are compared with the configured limits",
     rule="senders were blocked at least once and more than 20 messages were handled afterwards")
spec("C30", src="c30.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=35), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing of whole networks in a simulated system (scheduler, clock, sockets) against a per-peer delivery model",
     rule="three or more nodes and at least two multicasts that name two or more different peers")
spec("C29", src="c29.cpp", flags=SIM_FLAGS, quick=dict(cases=20000, time=35), thorough=dict(cases=2000000, time=800), assumptions=A_SIM,
     technique="stateful property-based testing in a deterministic simulation with virtual time: generated heartbeat settings, traffic, answer delays and silences; oracle: no change of a healthy link, bounded detection of a silent one, exact heartbeat timing against a scripted peer",
     rule="pair: healthy for more than four timeouts, or a silenced link; late: at least one answered heartbeat")
