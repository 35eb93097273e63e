#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property list)."""
import json, os
I = "src/platform/unix/internals.rs"; A = "src/asynchronous.rs"; B = "src/blocking.rs"
S = "src/serde.rs"; BI = "src/builtins.rs"; UB = "src/unsized_builtins.rs"; D = "crossmist-derive/src/lib.rs"
SUB = "src/platform/unix/subprocess.rs"; EN = "src/platform/unix/entry.rs"; F = "src/fns.rs"
T = "src/tokio.rs"; SM = "src/smol.rs"; POD = "src/pod.rs"; REL = "src/relocation.rs"; SR = "src/static_ref.rs"
DEL = "src/delayed.rs"; IMP = "src/imp.rs"; LIB = "src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Channels deliver every object exactly once, in order and intact",
  "The sequence of objects a receiving endpoint yields is exactly the sequence of objects sent successfully from the other endpoint: none lost, duplicated, reordered, merged, split or altered, whatever their sizes and however sending and receiving interleave. In a duplex the two directions are independent, and different channels never mix. This holds for blocking and asynchronous endpoints in any combination.",
  ["inputs", "schedules", "histories"],
  "all object sizes around and across packet boundaries, all interleavings of the two endpoints at system-call granularity, all mixes of endpoint kinds, full and empty socket buffers",
  "tests send a few small objects with one endpoint idle; they never cross a packet boundary, never fill the socket buffer and never interleave the two sides inside one object",
  [I, A, B, T, SM],
  [("packetised object sender", I), ("packetised object receiver", I), ("SOCK_SEQPACKET socketpair", I)],
  [("data_pos/fds_pos", "how much of the current object is already on the wire or received", I), ("is_last marker byte", "tells the receiver whether the object is complete", I)],
  ["return values of send/recv on every endpoint"])
p("C02", "Closing an endpoint ends the stream cleanly, never early and never late",
  "After one endpoint is dropped, the other still receives every object sent before, then an end-of-stream indication on every further receive; a request with no answer reports an end-of-file error. If the peer disappears in the middle of an object, receiving reports an error, never a partial object and never a clean end. Sending to a closed peer returns an error.",
  ["histories", "crash_points", "schedules"],
  "all bounded histories of send, receive, request, drop on both endpoints; all points at which a sender may die inside an object",
  "tests only drop an idle sender after reading everything; they never close with unread data, never die inside an object",
  [I, A, B],
  [("end-of-stream detection on an empty read", I), ("treatment of connection reset", I), ("request()", A)],
  [], ["return values of send/recv/request after the peer is gone"])
p("C03", "File descriptors travel with their message, in order, as the same open file",
  "Every file handle inside a sent object arrives inside the corresponding received object, in the same place, referring to the same open file (shared offset, same access mode), whatever the number of handles and the amount of data in the object. The sender keeps its handles; received handles are close-on-exec.",
  ["inputs", "schedules"],
  "all handle counts around and across the per-packet limit, combined with data sizes around the packet size, sequences of such objects, all endpoint kinds",
  "tests pass at most two handles per object, so the per-packet handle limit and the pairing of handles with later objects are never exercised",
  [I, BI, S],
  [("fds chunked by the per-packet limit", I), ("received rights appended in order, MSG_CMSG_CLOEXEC", I), ("handle order in serializer/deserializer", S)],
  [("fds", "handles collected for the object under transfer", I)],
  ["fstat identity, offset and FD_CLOEXEC of received handles"])
p("C04", "Signal interruptions and would-block answers never change what is delivered",
  "If any system call of a channel operation, of joining a child or of spawning one is interrupted by a signal, or answers that it would block on a non-blocking endpoint, the operation goes on and its outcome is the same as without the interruption.",
  ["fault_sequences", "schedules", "inputs"],
  "EINTR and EAGAIN injected at every system call of every operation, up to the stated number per execution",
  "tests never receive a signal during an operation and rarely hit a would-block answer in the middle of an object",
  [I, A, SUB, T, SM],
  [("retry_on_intr around sendmsg/recvmsg/waitpid", I), ("sender/receiver state kept across retries", I), ("AsyncStream::blocking_write/blocking_read", A)],
  [("data_pos/fds_pos", "resume position of an interrupted object", I)],
  ["results of operations with injected EINTR/EAGAIN"])
p("C05", "A failed or abandoned channel operation never corrupts later traffic",
  "If sending fails with a system error or its future is dropped before completion, the receiver never observes a partial object or an object glued to another one: it observes only whole sent objects in order, and a later send either delivers its object intact or reports an error. If a receive future is dropped before completion, no data is lost: the next receive yields the object that was being received.",
  ["fault_sequences", "crash_points", "histories"],
  "every system call of a send at which an error may be returned, every suspension point at which a send or receive future may be dropped, followed by further operations",
  "tests never drop an unfinished future and never see a failing sendmsg",
  [I, A],
  [("shutdown on an incompletely sent object", I), ("partially received object kept in the endpoint", A)],
  [("partial", "the received beginning of an object whose receive was abandoned", A)],
  ["objects received after the failure"])
p("C06", "Asynchronous operations are always woken up when they can make progress",
  "A pending tokio or smol send, receive, spawn or join completes once the other side has read or written enough (or has closed): no wake-up is lost and no operation waits for the wrong event. Mixing runtimes and blocking endpoints on the two sides of a channel does not change this.",
  ["schedules", "configurations", "inputs"],
  "all orders in which the two sides are polled, for all pairs of endpoint kinds and object sizes around the socket buffer size",
  "tests finish each operation at once because the data always fits the socket buffer, so the waiting path of sends is never taken",
  [T, SM, A],
  [("async_io(WRITABLE/READABLE)", T), ("write_with/read_with", SM), ("non-blocking flags per stream kind", I)],
  [], ["whether a woken future completes; kernel readiness of its descriptor"])
p("C07", "Every supported library type survives serialization unchanged",
  "Deserializing what was serialized yields an equal value and consumes exactly what the value produced, for every supported built-in type, nesting and value, including empty, extreme and non-UTF-8 contents. The result does not depend on whether a type takes the plain-memory or the structural path.",
  ["inputs", "configurations"],
  "all values of a bounded value grammar over all supported type constructors, alone and in sequences",
  "tests serialize about a dozen values; most containers, widths and nestings are never serialized at all",
  [BI, UB, POD, S],
  [("NonTrivialObject impls", BI), ("plain-old-data fast path", POD), ("Box<T>/Box<[T]>", UB)],
  [], ["deserialized value and the position after it"])
p("C08", "derive(Object) round-trips every struct and enum shape",
  "For every struct or enum whose fields are objects, the derived implementation compiles and round-trips every value: each field and the chosen variant come back unchanged, whatever the number, names, kinds and types of fields and variants and the generic parameters. Values of a derived type can be mixed with other objects in one stream.",
  ["programs", "inputs"],
  "all type declarations of a bounded grammar (unit, tuple and named structs, enums with up to three variants, generic parameters), each with all values of a small domain",
  "the quantifier is over programs: tests declare four types",
  [D, POD, IMP],
  [("derive(Object) expansion", D), ("plain-old-data detection by trait bounds", IMP)],
  [], ["deserialized values of generated types"])
p("C09", "Shared pointers keep their sharing structure",
  "When objects containing Rc or Arc pointers are transferred, pointers that referred to one allocation refer to one allocation afterwards, pointers to different allocations stay different, and every pointee equals the original, for every acyclic sharing graph, including nested sharing, mixed pointer kinds and user-defined shared types.",
  ["inputs"],
  "all sharing graphs up to the stated number of nodes and references, all root sequences, for Rc, Arc and mixtures",
  "tests contain no shared pointer inside another one; the quantifier is over all graphs",
  [S, BI],
  [("cyclic ids in the serializer", S), ("cyclic table in the deserializer", S)],
  [("cyclic_ids / cyclics", "numbering of shared objects on the two sides", S)],
  ["isomorphism of the pointer graph before and after"])
p("C10", "Trait objects and static references resolve to the same item in every process",
  "A boxed trait object, a static reference or a static function pointer received by another process of the same program designates the same type, static or function as in the sender, whatever address each process was loaded at, and continues to do so when forwarded through further processes and back.",
  ["configurations", "histories", "inputs"],
  "all kinds of relocatable references, all bounded paths through channels, children and grandchildren with address-space randomisation",
  "tests pass two trait objects one hop; address randomisation makes each run one sample",
  [REL, UB, SR, F],
  [("addresses stored relative to a base symbol", REL), ("vtable and constructor pointers stored with boxes", UB)],
  [], ["method results and pointed-to values in the receiving process"])
p("C11", "Callable objects behave like the closures they stand for",
  "A function made callable across processes, with any number of leading arguments bound by value, by reference or by mutable reference, or written as a lambda, returns exactly what the equivalent plain closure returns, for every arity and calling mode, before and after being transferred; bound mutable state persists between calls and travels with the object.",
  ["inputs", "histories", "programs"],
  "all arities, all numbers of bound arguments, all binding kinds, all calling modes, all bounded call/transfer histories",
  "tests bind one or two arguments of small functions; arities above three, mutable state after transfer and mixed binding are not covered",
  [F, D],
  [("BoundValue/BoundMut/BoundRef", F), ("lambda! expansion", F), ("func expansion", D)],
  [("head", "the bound argument", F)],
  ["call results in both processes"])
p("C12", "Joining reports exactly the child's outcome, and reaps the child",
  "Joining yields the child's return value if and only if the child returned it and exited successfully; if the child panics, is killed, exits with a non-zero status, or exits before delivering a value, an error is reported, except that a child of unit type may exit successfully by any means. Whatever the outcome, joining terminates once the child has and the child is reaped.",
  ["crash_points", "inputs", "configurations"],
  "all child behaviours, return types and sizes, backends of parent and child, and all system calls of the child at which it may be killed or exit",
  "tests cover a normal return and one exit(0); the quantifier is over all points at which a child may die",
  [A, EN, D, IMP],
  [("join: receive, wait, compare status", A), ("return value sent before exit", D), ("unit type special case", IMP)],
  [], ["result of join; whether the process is still a child afterwards"])
p("C13", "Kill handles work until the child is reaped and never after",
  "A kill handle terminates its child at any moment at which the child is still running, even while another thread is joining it, and does not block on that join. Once the child has been reaped a kill handle never signals any process and reports an error, in every interleaving of joins and kills.",
  ["schedules"],
  "all interleavings of joining, up to two killers and the child's own termination at system-call granularity",
  "tests never kill a child; the property is about interleavings of threads",
  [A],
  [("may_kill mutex", A), ("wait without reaping before taking the lock", A)],
  [("may_kill", "whether the process id is still ours", A)],
  ["kill system calls relative to reaping; result of kill and join"])
p("C14", "A child receives exactly the handles passed to it",
  "A spawned process has, besides the standard streams and its own crossmist channel, exactly the handles contained in its arguments, each usable and close-on-exec, and inherits no other descriptor of the parent that is close-on-exec, even if several threads spawn at the same time. Spawning does not change any descriptor flag in the parent.",
  ["schedules", "inputs", "configurations"],
  "all numbers and kinds of passed handles up to the bound, all interleavings of two concurrent spawns at system-call granularity",
  "tests never look at the descriptor table of a child and never spawn concurrently",
  [SUB, EN, A],
  [("close-on-exec cleared in the child only", SUB), ("close-on-exec restored after start", EN)],
  [], ["descriptor table of the child and of the parent"])
p("C15", "No operation leaks or double-closes descriptors",
  "When all objects and endpoints of an operation have been dropped, the process has the same open descriptors as before, whether the operation succeeded, failed at any point, was interrupted or was abandoned. No descriptor is closed twice and a descriptor handed to crossmist is closed exactly once.",
  ["fault_sequences", "histories", "schedules"],
  "all histories and fault positions explored for the channel, spawn and join operations, with exact descriptor accounting after each",
  "tests never count descriptors",
  [I, A, SUB, EN, BI],
  [("ownership of received rights", I), ("ownership of socket ends in spawn", A)],
  [], ["open descriptors before and after; results of close"])
p("C16", "A failed spawn reports an error and leaves nothing behind",
  "If any system call needed to start a child fails, spawning returns an error in the parent, and no process, zombie or descriptor remains; the user's function is not executed and later spawns work normally. The same holds if an asynchronous spawn is abandoned before completion, except that the child may have started.",
  ["fault_sequences", "crash_points"],
  "every system call of a spawn, in the parent and in the child before it executes, failing with each plausible error",
  "tests never make a system call fail",
  [A, SUB],
  [("error reporting from the cloned child", SUB), ("killing and reaping when the entry cannot be delivered", A)],
  [], ["result of spawn; children and descriptors afterwards"])
p("C17", "Delayed objects arrive intact and independently of their surroundings",
  "An object wrapped for delayed deserialization yields, once deserialized in the receiver, a value equal to the original with its own handles, wherever it is placed among other objects and however many there are, nested or not; objects around it are not affected.",
  ["inputs", "histories"],
  "all bounded arrangements of plain, handle-carrying, shared and delayed objects, nested up to the bound, deserialized in all orders",
  "the tests use delayed objects only implicitly, one at a time",
  [DEL, S, EN],
  [("separately serialized blob with its own handles", DEL)],
  [], ["values and handles after deserialization"])
p("C18", "Each spawn runs the requested function exactly once in a fresh process",
  "Each successful spawn runs the requested function exactly once, with its own arguments, in a new child process of the spawner, and never the program's main body; this holds for processes spawned by spawned processes, for concurrent spawns, and for every backend, and whatever became of the program's file, its name, its environment, its working directory and its standard input since it started. Initialisation is idempotent, and spawning without it is refused.",
  ["histories", "configurations", "schedules"],
  "all process trees up to the stated size, all backends, all arguments of the tree, all combinations of what became of the program",
  "tests spawn single children from the root",
  [EN, IMP, D, SUB],
  [("init dispatches on the process name", IMP), ("entry received and called by the child", EN)],
  [("INITIALIZED", "whether init has run", IMP)],
  ["per-process execution log"])
p("C19", "Running out of descriptors is reported and does not corrupt the channel",
  "If the receiver cannot accept all handles of an object because of its descriptor limit, receiving reports an error: no handle is silently lost, swapped or replaced, and no partial object is returned. Objects sent before and after are received intact once descriptors are available again.",
  ["fault_sequences", "inputs"],
  "all numbers of free descriptors from zero to enough, for objects with handle counts around the packet limit, in all positions of a sequence",
  "tests never run into a resource limit",
  [I],
  [("truncation flag of recvmsg", I)],
  [("fds_truncated", "some handles of the current object were lost", I)],
  ["result of recv under a descriptor limit"])
p("C20", "Endpoints keep their peer and pending objects when converted or transferred",
  "Converting an endpoint between backends, splitting a duplex into one direction, taking or restoring its raw handle, or sending the endpoint itself through a channel or to a child leaves the peer, the order and the objects already in flight unchanged.",
  ["histories", "configurations"],
  "all bounded sequences of conversions and transfers, interleaved with sends and receives in both directions",
  "tests transfer fresh endpoints once; conversions with objects in flight are not covered",
  [A, B, BI],
  [("TryFrom conversions", A), ("into_sender/into_receiver", A), ("endpoints as objects", B)],
  [], ["objects received after the conversions"])
p("C21", "Every value is dropped exactly once and its memory returned exactly once",
  "Every value that crossmist creates while receiving, calling, converting or joining is dropped exactly once, and its memory is returned exactly once, with the layout it was obtained with and not touched afterwards, whether the operation succeeds, the object is rejected in the middle, the function panics, or a future is abandoned. Values given to crossmist to be sent stay owned by the sender and usable. Nothing is leaked, except that a panic while an object is being deserialized may leak parts of it.",
  ["inputs", "histories", "fault_sequences"],
  "all types nested up to the bound with a failure at each value inside; all bounded histories of calls and transfers of callables; all bounded histories of endpoints and children",
  "tests check returned values, not ownership; leaks and invalid frees are silent",
  [B, S, I, A],
  [("manual initialisation and destruction of arrays", B), ("boxes rebuilt from raw pointers", "src/pod.rs"), ("partially received objects kept between calls", I)],
  [], ["drops of every value and every allocation, by the harness's allocator"])
p("C22", "Signals reach the processes they were sent to, and disturb nothing",
  "A signal that arrives at any moment of spawning, exchanging or joining is handled by the process it was sent to, once and in its own memory: a handler of the spawning process is never executed on behalf of the child, and no signal sent to the spawning process is lost. The operation completes as it would have without the signal, unless the signal killed the child, which is reported. Spawning, successful or not, leaves the signal mask and the reactions to signals of the spawning process as they were, and the child starts with the blocked and ignored signals of the spawning thread.",
  ["fault_sequences", "schedules", "configurations"],
  "every call of spawning and joining as the moment of arrival, in the parent or in the child before exec; all signals of the list, ways of handling them and recipients; all bounded numbers of interruptions of every operation that waits",
  "tests send no signals; the window between clone and exec is some microseconds",
  [SUB, B, A, I],
  [("clone with shared memory", SUB), ("retrying of interrupted calls", I)],
  [("signal mask and dispositions", "of the parent, and inherited by the child", SUB)],
  ["executions of the handler, by process", "mask and dispositions afterwards", "status of the child", "result of the operation"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
