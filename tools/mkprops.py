#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one dict each)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/wtr/watcher.hpp"
D = "devel/include/"
W = D + "wtr/watcher-/watch.hpp"
EVH = D + "wtr/watcher-/event.hpp"
SB = D + "detail/wtr/watcher/semabin.hpp"
LW = D + "detail/wtr/watcher/adapter/linux/watch.hpp"
LS = D + "detail/wtr/watcher/adapter/linux/sysres.hpp"
LI = D + "detail/wtr/watcher/adapter/linux/inotify/watch.hpp"
LF = D + "detail/wtr/watcher/adapter/linux/fanotify/watch.hpp"
WH = D + "detail/wtr/watcher/adapter/warthog/watch.hpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                   observe_at=observe, hook_needed=hook)))

TESTS = "The shell suite runs one watcher on one quiet directory with one fixed schedule and no failing system call"

prop("C01", "Each report starts with one live and ends with one die message",
 "The first callback of every watcher is a create/watcher event whose path_name is `s/self/live@` or `e/self/live@` followed by the absolute watched path, the last is a destroy/watcher event `s/self/die@` or `e/self/die@` with the same path, and each of the two is delivered exactly once. "
 "No event comes before the first or after the last, an `e/self/live` is followed directly by `e/self/die`, and every other event with path_type watcher carries effect_type other and a text starting with `w/` or `e/`. "
 "This holds for any path (valid or not), however early, late or often the watcher is closed or destroyed, and whatever system calls fail.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of opener, worker thread, closer and file-system activity; every close point; every failing call; all Linux back ends",
 TESTS + "; they never close early, never watch a bad path and never see a failure.",
 [H, W, LW], [("watch constructor's async body: live, adapter, die", W), ("send_msg", LS)],
 ["sequence of callback invocations of each watcher"])

prop("C02", "close() reports success exactly when the watch ran without fatal error",
 "close() returns true exactly when the watcher's live and die messages both began with `s`: it returns false if the path could not be watched, if the watcher was closed before its live message was decided, or if it met a fatal error. "
 "Every repeated close() of the same watcher returns false and has no further effect, and destroying a watcher that was never closed closes it. "
 "A fatal error that happened before the close is never hidden by the close itself.",
 ["schedules", "fault_sequences"],
 "every point at which close may arrive relative to the worker's start, its event batches and its errors",
 TESTS + "; they look at no return value but the CLI's exit status after a clean run.",
 [H, W, SB, LW], [("watch::close", W), ("result ordering of the epoll loop", LW), ("semabin::release/state", SB)],
 ["return values of close()", "prefix of live/die messages"])

prop("C03", "No callback runs after close() returns and callbacks never overlap",
 "Once close() or the destructor has returned (whatever it returned), the watcher's callback is never entered again and the watcher's thread has ended. "
 "While the watcher lives, calls of its callback are made one at a time, never concurrently, and the die message is delivered before close() returns.",
 ["schedules", "fault_sequences"],
 "every interleaving of close/destruction with running callbacks, event delivery and failed start-up (including exhausted descriptors)",
 TESTS + "; a late callback only shows under schedules and faults they do not produce.",
 [H, W, SB], [("close(): release, then wait for the future", W), ("destructor calls close", W)],
 ["callback enter/exit stamps against close() return stamps", "thread exit"])

prop("C04", "Closing always finishes promptly, even under endless event traffic",
 "After close() is called it returns within a bounded amount of work by the watcher, no matter how many events are pending or still arriving, how events and the close request are ordered in the wake-up, how slow the callback is, and how early or late it is called. "
 "In particular a continuous stream of file-system events can delay a close by at most the batch being processed, and a watcher that ended by itself can still be closed at once.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving, with event floods that continue during the close, adversarial order of ready descriptors, and transient faults",
 TESTS + "; they close on an idle directory.",
 [H, LW, SB], [("epoll loop exits on the close descriptor", LW), ("eventfd as wake-up", SB)],
 ["number of event-loop rounds and callbacks between close() call and return"])

prop("C05", "Interrupted, spurious and partial system calls change nothing",
 "If a wait or read is interrupted by a signal (EINTR), wakes up with nothing to read (EAGAIN or a spurious readiness), or returns fewer events than are queued, the watcher keeps running, reports no error, and every change is still reported exactly once and in order.",
 ["fault_sequences", "schedules"],
 "any number and placement of EINTR, EAGAIN, spurious wake-ups and short reads in any run",
 TESTS + "; no signal ever interrupts the watcher.",
 [H, LW, LI, LF], [("epoll_wait result handling", LW), ("read result handling", LI), ("read result handling", LF)],
 ["full event report compared with the changes made", "absence of e/ messages"])

prop("C06", "Unrecoverable failures are announced and end the watcher cleanly",
 "When a system call the watcher cannot do without fails for good (no descriptor left, no event queue, failing wait or read, base directory not watchable), the watcher delivers an `e/...` message (path_type watcher) if it had announced itself live, then `e/self/die`, stops its thread, and close() returns false; it never hangs, spins, crashes or goes silently deaf. "
 "A failure that affects only one directory or one event is announced by a `w/...` message and leaves the rest of the watch working.",
 ["fault_sequences", "schedules"],
 "any failing system call (any errno, once or from then on) at any call the watcher makes during start-up or operation",
 TESTS + ".",
 [H, LW, LS, LI, LF, SB], [("result enum: pending < complete < e", LS), ("make_sysres failure paths", LI), ("make_sysres failure paths", LF), ("platform_watch", LW)],
 ["messages, die status, close() result, liveness of the process"])

prop("C07", "Every descriptor, directory stream and thread is released exactly once",
 "After a watcher has been closed and destroyed, every file descriptor, directory stream, kernel watch and thread it acquired has been released, exactly once, whatever happened in between; it never closes or uses a descriptor that is not its own, and does not accumulate descriptors while running. "
 "The descriptors it holds while running are not inherited by child programs.",
 ["schedules", "fault_sequences", "histories"],
 "any history of events, any failing call at any point, any descriptor numbering (including a free descriptor 0), closes at any point",
 TESTS + " and look at no resource; a leaked or doubly closed descriptor is invisible to them.",
 [H, LW, LS, LI, LF, SB], [("close of ke.fd and ep.fd in platform_watch", LW), ("~semabin", SB), ("closedir in walkdir_do", LS), ("close in pathof", LF)],
 ["descriptor table of the process before, during and after"])

prop("C08", "Every change in a watched directory is reported once, in order",
 "Once a directory is being watched, every creation, content modification, deletion, and rename (away from or into it) of an entry directly inside it is reported by exactly one event with the right effect, in the order the changes happened, unless the operating system itself merged it with an identical pending one or announced that it had dropped events. "
 "This holds however fast changes come, how they are spread over the operating system's read batches, and what other directories and processes do meanwhile, including directories that are removed while their events are pending.",
 ["schedules", "histories", "inputs"],
 "all histories of file-system operations by several processes over small trees, all schedules against the watcher thread, all batch boundaries",
 TESTS + "; they make a handful of spaced-out changes in the top-level directory only.",
 [H, LI, LF], [("do_ev_recv batch loop", LI), ("do_ev_recv batch loop", LF), ("event masks", LI), ("deferred removal of path-map entries", LI)],
 ["event report compared with the changes made"],
 [("ke.dm", "watch descriptor to path map", LI)])

prop("C09", "Nothing is reported that did not happen",
 "Every file-system event reported corresponds to one real change of that effect and path kind (dir or file) made to that entry after the watcher was opened, and no change is reported twice. "
 "Reads, opens, attribute changes and directory listings cause no event, nothing outside the watched tree is reported (not through symbolic links, and not from directories since moved away), and every reported path is absolute.",
 ["schedules", "histories", "inputs"],
 "all histories of operations (including accesses, symbolic links, moves out of and into the tree) and schedules",
 TESTS + "; one of them makes a few plain accesses, none makes links, moves or concurrent changes.",
 [H, LI, LF, LS], [("recv_mask / recv_flags", LI), ("is_real_event", LI), ("parse_ev", LF), ("walkdir_do does not follow links", LS)],
 ["event report compared with the changes made"])

prop("C10", "Reported paths stay right when directories are renamed or moved",
 "The path_name of every event is the path the changed entry really had when it changed (or, if a directory above it and below the watched path was moved between the change and the report, a path it had by then). "
 "This still holds after a watched directory, or any directory above it inside the tree, has been renamed or moved any number of times, and for directories that came into the tree by a move; only while several such moves are pending unread at once may the path be one of those in between.",
 ["schedules", "histories"],
 "all histories mixing directory renames, moves and changes below them, and all schedules and batch boundaries",
 TESTS + "; no test changes anything below a renamed directory.",
 [H, LI, LF], [("path map kept in step with renames", LI), ("pathof resolves the handle at read time", LF)],
 ["event paths compared with the true paths of the changed entries"],
 [("ke.dm", "watch descriptor to path map", LI)])

prop("C11", "A rename's two halves are never mismatched",
 "A rename inside the tree is reported as one rename event carrying the old path, with the new path associated, whenever the operating system hands over both halves together; otherwise each half is reported as a rename event of its own path. "
 "An event never associates halves of two different renames, never swaps old and new, and never reports a half twice.",
 ["schedules", "histories"],
 "all histories of renames (inside, into and out of the tree, overwriting, chained, by several processes), all interleavings of the halves with other events, all batch boundaries",
 TESTS + "; they rename one entry at a time, inside one directory.",
 [H, LI, LF], [("isassoc/isfromto in parse_ev", LI), ("isfromto in parse_ev", LF)],
 ["rename events and their associated paths"])

prop("C12", "The watch follows the tree as it grows",
 "When things have quietened down, every directory below the watched path is being watched, whenever and however it came to be there (existing at start, created singly or as a nested path in one go, recreated, or moved in), so that a later change in it is reported (except directories whose own creation or arrival the operating system announced to have dropped or that could not be watched, which is announced). "
 "Directory entries whose kind the file system does not tell while listing are treated like any other.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of directory creation, deletion and moves with the watcher's start-up walk and its handling of earlier events",
 TESTS + "; they create single top-level directories.",
 [H, LS, LI, LF], [("walkdir_do at start", LS), ("marking new directories", LI), ("do_mark_if_newdir", LF)],
 ["probe changes made in every directory of the tree after quiescence"])

prop("C13", "Events lost by the operating system are announced and cost nothing else",
 "If the operating system drops events because its queue overflowed, the watcher reports a `w/` message naming the overflow, in place, and keeps running. "
 "All changes whose events were not dropped, before and after the overflow, are reported exactly once, in order and with the right paths.",
 ["histories", "schedules", "fault_sequences"],
 "any queue limit, any burst of changes, any placement of the overflow in a read batch",
 TESTS + "; no test makes more than a dozen events.",
 [H, LI, LF], [("IN_Q_OVERFLOW handling", LI), ("FAN_Q_OVERFLOW handling", LF)],
 ["event report and messages around overflows"])

prop("C14", "Watchers in one process are independent",
 "Any number of watchers may be open at once in one process, on the same, nested or separate trees, opened and closed from any threads in any order. "
 "Each delivers the same report it would deliver alone, to its own callback only, and closing, failing or slowing one neither stops, delays indefinitely nor alters another.",
 ["schedules", "histories", "configurations"],
 "all interleavings of several watchers' start, events, slow callbacks and close, including closing one watcher from another's callback",
 TESTS + "; never more than one watcher per process.",
 [H, W, LW, LI, LF], [("all state is per watch object or per adapter call", LW)],
 ["each watcher's event report compared with the changes made in its own tree"])

prop("C15", "Falling back to another adapter is invisible",
 "Which operating-system interface serves a watch depends only on what is permitted and works: when the preferred one is refused, or cannot watch the base directory, the other is used. "
 "Either way the user sees the same thing: one live message, a complete and correct report of later changes, no error message about the refused interface, and a clean close.",
 ["configurations", "fault_sequences", "schedules"],
 "every way the preferred interface can be refused (at initialisation, at marking, at event-loop set-up), privileged or not",
 "The tests exercise only the one interface that the sandbox happens to allow.",
 [H, LW, LF, LI], [("try_fanotify and fall-back", LW), ("make_sysres", LF)],
 ["event report and messages"])

prop("C16", "Event times are true and printed exactly, whatever the clock does",
 "The effect_time of an event is the system clock's time, in nanoseconds since the epoch, at a moment between the change (for messages: the open) and the callback's invocation, also when the clock is set forwards or backwards or starts near the epoch. "
 "Its text form, alone and inside the event's JSON form, narrow and wide, is exactly that decimal number.",
 ["schedules", "fault_sequences", "inputs"],
 "any clock value, skew and jump, any delay between change, read and delivery",
 "The shell tests strip effect_time before comparing, and run only at the present date.",
 [H, EVH], [("event::effect_time", EVH), ("num_to_str", EVH)],
 ["effect_time and its text forms in the callback"])

prop("C17", "The C library reports the same events and its handles are safe",
 "Through the C interface every callback carries exactly the path, associated path (null if none), effect, path kind and time of the event the C++ interface would deliver, with strings valid for the duration of the callback, and the user's context pointer. "
 "wtr_watcher_close returns true exactly when the watch had started and ended without fatal error, and whatever it returns, no callback follows and everything the watcher held is released; closing a null handle returns false and does nothing (a handle which was closed is gone, as after free).",
 ["schedules", "histories", "fault_sequences"],
 "all schedules of open, events, close, repeated close and failed start-up through the C interface",
 "No test links the C library; its test program is interactive and only compiled.",
 ["watcher-c/src/watcher-c.cpp", "watcher-c/include/wtr/watcher-c.h", H], [("wrapped_callback", "watcher-c/src/watcher-c.cpp"), ("wtr_watcher_close", "watcher-c/src/watcher-c.cpp")],
 ["C callbacks, return values, descriptor table, heap"])

prop("C18", "The command-line program streams every event and keeps its deadline",
 "While wtr.watcher runs it writes each event of the watch, in order, as one complete line holding one JSON object with the fields path_type, path_name, effect_type, effect_time and associated, and each line is out before the program waits for the next event. "
 "Given a time it stops once exactly that time (in the given unit, as far as nanoseconds count) has passed, not before, even if its sleep is interrupted; without one it stops at the next input or end of input. It exits 0 when the watch started and closed without error and non-zero otherwise; asked for help it prints that and exits 0, and for a path which does not exist or wrong arguments it prints help on standard error and exits non-zero.",
 ["schedules", "fault_sequences", "histories"],
 "any event traffic, units and times, interrupted sleeps, input at any moment, failing start-up",
 "The shell tests use the -ms unit with a few events and ignore the exit status; they read the output only after exit.",
 ["src/wtr/watcher/main.cpp", H], [("callback prints with endl", "src/wtr/watcher/main.cpp"), ("sleep_for / cin.get, then close", "src/wtr/watcher/main.cpp")],
 ["standard output over simulated time, exit status, simulated run time"])

prop("C19", "The Node.js addon hands every event to JavaScript once, in order",
 "Every event of the watch reaches the JavaScript callback exactly once, in order, on the JavaScript thread, with the same time (as a JavaScript number), path, associated path (or null), effect and path kind (bytes which are not UTF-8 appear as replacement characters), however long that thread is busy and however many events pile up meanwhile, including the die message delivered by close. "
 "close() returns whether the watch ended without error, never deadlocks with a pending delivery, and all memory, references and queued events are released exactly once. When the environment (a worker thread, or the process) ends with watches open, they are closed with it: nothing is called or used afterwards, and nothing is left behind.",
 ["schedules", "histories"],
 "all interleavings of the watcher thread, the JavaScript thread's turns, close(), and the end of the environment, with any backlog",
 "The addon's tests are not run here, need a real event loop, and never have a backlog.",
 ["watcher-nodejs/lib/watcher-napi.cpp"], [("callback_bridge / callback_js_receiver", "watcher-nodejs/lib/watcher-napi.cpp"), ("close", "watcher-nodejs/lib/watcher-napi.cpp")],
 ["JavaScript callback invocations, close() result, Node-API object and heap accounting"])

prop("C20", "The Python binding hands every event to the Python callback once, in order",
 "Every event of the watch reaches the Python callback exactly once, in order, with the same time, path, associated path (None if absent), effect and path kind, whatever bytes the file names contain, and a callback that raises does not stop later events. "
 "Closing, leaving the context manager, letting go of the last reference, or doing several of these ends the watch once, after which the callback is never called.",
 ["schedules", "histories", "inputs"],
 "all schedules of events, callbacks, close, context exit and deletion; file names of any bytes",
 "The Python binding has no tests.",
 ["watcher-py/watcher/watcher.py", "watcher-c/src/watcher-c.cpp"], [("callback_bridge", "watcher-py/watcher/watcher.py"), ("Watch.close", "watcher-py/watcher/watcher.py")],
 ["Python callback invocations against the changes made in the simulated file system"])

prop("C21", "The Rust binding hands every event to the stream once and closes once",
 "Every event of the watch appears in the stream exactly once, in order, with the same time, path, associated path, effect and path kind (bytes which are not UTF-8 appear as replacement characters). "
 "Calling close() any number of times, dropping the watch, or both, closes the underlying watcher exactly once and never touches another watcher; close() returns Ok exactly when the watch ended without error and Err on every repeat.",
 ["schedules", "histories", "inputs"],
 "all schedules of events, polling, close and drop; several watches opened and closed in turn; file names of any bytes",
 "The crate has no tests and is not built here.",
 ["watcher-rs/src/lib.rs", "watcher-c/src/watcher-c.cpp"], [("fwd_ev", "watcher-rs/src/lib.rs"), ("Watch::close / Drop", "watcher-rs/src/lib.rs")],
 ["stream items and close results against the changes made in the simulated file system"])

prop("C22", "No kernel answer makes the library touch memory it does not own",
 "Whatever the kernel legally answers - any event mix and name lengths, full read buffers, events ending exactly at the buffer's end, records for directories that no longer exist, failing lookups of a path, over-long paths - the library reads and writes only memory it owns and evaluates nothing undefined (but for the alignment of the kernel's own records in its buffer). "
 "Nothing it was given by the kernel for one event leaks into the report of another.",
 ["inputs", "fault_sequences", "schedules"],
 "all event streams and failing calls, with every access checked",
 TESTS + "; the sanitizer builds exist but no test runs them.",
 [H, LI, LF, LS], [("peek and parse_ev", LI), ("peek, parse_ev, pathof", LF), ("PATH_MAX buffers", LS)],
 ["AddressSanitizer and UndefinedBehaviorSanitizer reports in simulated runs"])

prop("C23", "The watcher is free of data races",
 "Opening, event delivery, closing and destroying watchers from their different threads involve no data race: every memory location shared between the user's threads and a watcher's thread, or between two watchers, is accessed in an order fixed by synchronisation the C++ memory model recognises.",
 ["schedules"],
 "all interleavings of open, callbacks, close and destruction of several watchers across threads",
 TESTS + "; the thread-sanitizer build exists but no test runs it.",
 [H, W, SB, LW], [("semabin's atomic state", SB), ("std::future as join", W)],
 ["ThreadSanitizer happens-before analysis in simulated runs"])

prop("C24", "A relative path means the directory it named when the watch was opened",
 "The directory watched is the one the given path named when the watch was constructed, even if the process changes its current directory immediately afterwards, before the watcher's thread has started; the live and die messages name that directory's absolute path.",
 ["schedules"],
 "all interleavings of construction, the worker's start and changes of the current directory",
 TESTS + "; no test changes directory after opening.",
 [H, W], [("absolute path computed for the watch", W)],
 ["live/die messages and events after a change of directory"])

prop("C25", "The portable polling adapter converges and survives a changing tree",
 "With the portable adapter, every regular file that appears in the tree, or changes its modification time, or disappears, and stays so for more than two scan periods, is reported (create, modify, destroy, as a file) exactly once within two scan periods; nothing is reported for entries that do not change. What lies in a directory which cannot be read is left out, and what changes while the watch starts may count as having been so from the beginning. "
 "Entries vanishing or becoming unreadable in the middle of a scan never crash the program, and the watcher can be closed at any moment within two scan periods.",
 ["schedules", "histories", "fault_sequences"],
 "all histories of file changes and all interleavings of the scan's system calls with them, with failing lookups",
 "The adapter is not what this platform uses unless it is asked for, so no test runs it at all.",
 [WH, H, SB], [("scan", WH), ("prune", WH), ("watch loop", WH)],
 ["event report against the file system's history over simulated time"])

prop("C28", "The JSON form of every event is well-formed JSON",
 "For every event, whatever characters its paths contain, the JSON text produced by the C++ string conversion, by the command-line program, by the Python binding and by serialising the Rust binding's event is well-formed JSON (for the C++ conversion, the member it is meant to be inside an object) whose strings decode to the event's values, if those are valid UTF-8.",
 ["inputs"],
 "all paths",
 "The tests use plain ASCII names only.",
 [H, EVH, "src/wtr/watcher/main.cpp", "watcher-py/watcher/watcher.py", "watcher-rs/src/lib.rs"], [("wtr_event_to_str_cls_as_json", EVH), ("json", "src/wtr/watcher/main.cpp"), ("Event.to_json", "watcher-py/watcher/watcher.py")],
 ["text forms of events"])

prop("C29", "A language binding watches exactly the path it is given, or refuses it",
 "Whatever its user asks for, a language binding (Node.js, Python, Rust) either asks the library to watch exactly the path it was given, byte for byte and of any length, or tells its user in the language's own way (an exception, an Err) that it can't: a path with a null byte, a value which is no path, a path the library refuses, a failing call of the language's runtime. "
 "It never watches another path instead, never ends the program, and a refused watch leaves nothing behind: no watcher, no reference to the callback, no queue, no memory, no second complaint later on.",
 ["inputs", "fault_sequences", "histories"],
 "all paths and other values given to watch, all single failures of the library and of the runtime's calls while a watch begins, in all histories of other watches",
 TESTS + "; nothing tests the bindings' refusals.",
 ["watcher-nodejs/lib/watcher-napi.cpp", "watcher-nodejs/lib/watcher.ts", "watcher-py/watcher/watcher.py", "watcher-rs/src/lib.rs"],
 [("watch", "watcher-nodejs/lib/watcher-napi.cpp"), ("Watch.__init__", "watcher-py/watcher/watcher.py"), ("Watch::try_new", "watcher-rs/src/lib.rs")],
 ["the path which reaches wtr_watcher_open, what the user is told, what is left when all is over"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
