#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the table below (which properties have scenarios is checked against mc/check.py).
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATE = "stateless model checking of the real code: exhaustive exploration of all thread interleavings under a controlled scheduler with visited-state pruning"
HB = "stateless model checking of the real code: exhaustive exploration of all Mazurkiewicz traces (happens-before pruning) with a vector-clock race detector"
SEQ = "explicit exhaustive enumeration of all inputs and operation sequences within bounds, executed on the real code under the controlled runtime, against a reference model"
TR = " Trusted: clang/TSan instrumentation, the runtime mc/rt.cpp (pthread, heap and time semantics), sequential consistency. Virtual time: sleeps end only when nothing else can run."
C = {
 "C01": (STATE, "All interleavings of 2-3 threads (thorough: 4) over all programs of take/give/functor operations for every small initial count and maximum; every complete history must linearize to a bounded counter."),
 "C02": (STATE, "Same exploration with spurious wake-ups and throwing functors; at quiescence no blocked call may be serviceable, for up to 3-4 explored threads, and hundreds of waiters under one schedule."),
 "C03": (STATE, "All interleavings of up to 3 threads with functors, every pattern of throwing/empty functors; monitored for overlap, count, order and roll-back."),
 "C04": (STATE, "All interleavings of abort/destruction against blocked and arriving callers, up to 3-4 threads; every caller must leave with the documented exception, later calls must fail, destruction must leave nobody inside."),
 "C05": (SEQ, "All pairs of constructor arguments from a boundary grid and all short operation sequences from there, compared with 64-bit reference arithmetic; blocking is observed by the scheduler."),
 "C06": (STATE, "All interleavings of 2-3 threads of lock/try_lock/unlock; every return code the pthread calls may produce is injected."),
 "C07": (STATE, "A preemptive fixed-priority uniprocessor scheduler with the inheritance protocol of the mutex actually created; all arrival orders of low/medium/high threads; the medium thread must never run while the high one waits for a lock."),
 "C08": (SEQ, "Every ring size class and every get/put sequence within bounds from every reachable 32-bit counter position, plus a native enumeration of all 2^32 counter positions."),
 "C09": (STATE, "All interleavings of up to 3-4 producers/consumers on rings of 1-3 elements; histories must linearize to a bounded FIFO; blocked calls are checked at quiescence; counter rollover positions included."),
 "C10": (STATE, "All life-cycle programs (prime/ready/put/get/abort/flush) sequentially and racing with up to 2 other threads."),
 "C11": (STATE, "All interleavings of up to 3 threads creating/destroying pool objects on pools of 1-3 blocks; every block's owner is tracked byte-exactly, exhaustion must be exact at every linearization."),
 "C12": (SEQ, "All element sizes and counts within bounds (and several types and alignments), memory oracle byte-exact for full pools."),
 "C13": (STATE, "All programs with throwing constructors/destructors, derived and multi-base types within bounds; lifetime ledger."),
 "C14": (STATE, "All interleavings of statistics readers with up to 2 other threads; values bounded by reference counters at every read, exact at quiescence."),
 "C15": (STATE, "All block geometries within bounds and all interleavings of up to 3 threads; initial values, lengths and lifetimes of every element."),
 "C16": (STATE, "All interleavings of up to 3-4 threads of put/emplace/getAndDispatch on queues of 1-3 slots; histories must linearize to a bounded FIFO; quiescence checks; full capacity probed afterwards."),
 "C17": (STATE, "As C16 with throwing constructors, moves, dispatches and wake-up functors at every position; lifetime ledger and slot accounting."),
 "C18": (STATE, "All interleavings of dispatchers and lock holders (2-3 threads); all sequences of AutoDispatchLock operations on several lock objects up to the depth given in the evidence, against a reference model."),
 "C19": (STATE, "All interleavings of abort (or destruction) with producers and dispatchers, 2-3 threads, both locking modes; no leak, no termination, no stranded thread, no use of freed memory."),
 "C20": (STATE, "All interleavings of statistics readers with producers/dispatchers; bounds at every read, exact values at quiescence."),
 "C21": (SEQ, "Every queue depth and fill level within bounds, after every small rollover, with and without a dispatch lock held by another thread, followed by full use of the queue."),
 "C22": (SEQ, "All message sizes around every boundary, all queue depths within bounds, several class layouts; memory oracle byte-exact; size gate probed at every fill level."),
 "C23": (HB, "Every Mazurkiewicz trace of 2-3 threads over programs of all documented thread-safe operations of every component; any pair of conflicting unordered accesses is a violation."),
 "C24": (STATE, "Every heap call made inside library operations after construction is seen by the interposed allocator, over all interleavings of 2 threads."),
 "C25": (STATE, "All interleavings of 2-3 threads of dispatch protocol events (wake-up, name, dispatch, destruction), exact order per call; name reads must linearize."),
 "C26": (STATE, "The unmodified example run under virtual time; schedules up to a preemption bound and processor counts from 2 up."),
 "C27": (SEQ, "Systematic fault injection: every single and double position of a failing allocation or mutex initialisation in every constructor, and of a failing user constructor in every operation sequence up to a depth; heap balance, exceptions and later use are checked after each."),
}
claimed = set()
import sys; sys.path.insert(0, V + "/mc"); import check
for n, h in check.HARNESS.items():
    if os.path.exists(f"{V}/mc/h/{n}.cpp"): claimed |= set(h["props"].split())
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 mc/check.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "One engine (mc/rt.cpp), one driver (mc/check.py), scenarios in mc/h. No hooks are needed in /repo: the unmodified sources are compiled with TSan instrumentation and linked with our runtime."}
for p in props:
    if p in claimed:
        t, n = C[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 mc/check.py {p} quick", "thorough_cmd": f"python3 mc/check.py {p} thorough", "technique": t, "level": "model_checking", "level_note": n + TR})
    else:
        m["not_applicable"].append({"property": p, "reason": "no check built yet (planned)"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", [x["property"] for x in m["not_applicable"]])
