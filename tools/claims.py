# further claims: C[id]=(technique, level note); NA[id]=reason
BN="Only the generated inputs and histories are covered. Trusts the reference encoder/model in the harness and the compiler."
C["S01"]=("round-trip monitor: generated values of every serialisable kind through every way of serialising, framing, forwarding and reading",BN)
C["S02"]=("mutation fuzzing of every deserialiser with a crash/validity oracle over several buffer kinds",BN)
C["S03"]=("trace checker: frames cut at arbitrary points into small chunks, compared with a reference decoder after every read",BN)
C["S04"]=("instrumented allocator and content monitor over generated histories of buffers, leases and pools, on one and several threads",BN)
C["D03"]=("round-trip and grammar monitor over generated and damaged path texts and bytes",BN)
ST="Only the schedules the real executors produced are covered. Trusts the monitors in the harness and the compiler."
C["C12"]=("thread-identity monitor in every handler, under random multi-threaded workloads on all executors with pool and dedicated components",ST)
C["C09"]=("history checker: a book of every request (handled, answered, dropped) compared with what every asker's future gave, under a controlled scheduler and on real threads",ST)
C["C10"]=("kill-hook, handler and completion monitor over loaded multi-threaded systems shut down in eight ways, next to a witness system",ST)
C["D01"]=("model-based monitor: a name-tree model predicts the receivers of every message over generated registration, update, death and send histories (local dispatcher, network dispatcher, remote sender), plus threads contending for names",ST)
C["D02"]=("model-based monitor: receivers, evenness and stability of every routed message over generated memberships, policies and deaths",ST)
NW="Only the schedules, cuts and byte sequences the runs produced are covered, over the loopback interface. Trusts the reference codec and the scripted peers in the harness, and the kernel's TCP."
C["N01"]=("order, gap, duplicate, content and session monitor on every received message of real systems exchanging traffic from many threads",NW)
C["N02"]=("fault injection: scripted peers and shut-down sockets cut sessions at chosen bytes and handshake steps; stream checker per session, status-order automaton, suffix and give-up checks",NW)
C["N03"]=("scripted hostile peers (connecting, accepting, datagrams) next to a monitored healthy pair; panic, session and delivery monitors, and a connection-place leak check",NW)
C["N04"]=("at-most-once, content, deliverability and neighbour monitor on UDP messages of all sizes among malformed datagrams",NW)
C["N05"]=("model-based monitor: a model of the rule set decides, after every batch of block and allow requests, which peers must get messages through, keep their session undisturbed, or be cut off",NW)
C["D04"]=("delivery monitor: values sent in every way through random graphs of forwarding actors on one to three systems; a model predicts every delivery with content, id, sender, address and order",NW)
C["G01"]=("model-based monitor: random configuration sources, printed in random TOML styles, merged by a model; every value read through every typed accessor of the built system is compared",BN)
C["C14"]=("ThreadSanitizer and AddressSanitizer on the workloads of the other checks (real executors, loopback network), Miri (tree borrows, data races, weak memory) on small systems under a controlled scheduler and on real threads, buffers and (de)serialisers; the sanitizers' reports are the oracle","Only executions the workloads produced are covered; Miri interprets small systems only and no network code. Reports without a frame of the code under test are not counted, races inside crossbeam-deque's slots are suppressed.")
C["N06"]=("model-based monitor: hand-driven peers connect, half-connect, use and close connections around both limits, an actor keeps messages until no buffers are left; a model of recency and occupancy decides every step, deliveries and delays are checked",NW)
C["S05"]=("model-based monitor: generated messages through several match_deser! forms, all unpacking calls and NetworkActors, compared with a reference of which deserialiser must see them",BN)
C["C15"]=("history checker: every reply recorded with the client, form and server it went through and compared with the requests made; allocation and equality monitors on all reference kinds",ST)
