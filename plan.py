"""What each check runs: harness entry points, the labels every run must reach, bounds, assumptions."""

GLOBAL_ASSUMPTIONS = [
    "rustc/LLVM (opt-level 1, debug assertions and overflow checks on, panic=abort) translate the source faithfully; "
    "the symbolic executor (/verif/symex) implements the LLVM IR semantics it accepts and refuses everything else; "
    "sampled paths are re-run natively on every check and their observations compared",
    "z3 (z3-new) and the GF(2) elimination in symex/src/lin.rs decide the queries correctly",
    "single-threaded execution: critical sections are no-ops and atomics are sequentially consistent; concurrency "
    "exists only as interleavings of futures at suspension points",
    "allocation never fails",
]
MOCK = ("the storage behind the list is the harnesses' own NdlDataStorage (harness/src/store.rs): a FIFO of "
        "individually atomic elements, up to 48 of them, elements of at most 24 bytes; a failed or interrupted push "
        "leaves the element, nothing, or one undecodable element; a failed or interrupted invalidation removed the "
        "element or did not")
SEQ = "sequence numbers below 0xfffffff0 (no wrap-around); no two valid records with the same number"


def E(entry, what, *reach, **opts):
    return {"entry": entry, "what": what, "reach": list(reach), "opts": opts}


PLAN = {
    "C01": {
        "quick": [
            E("c01_types", "four value types through write, reboot, collection, reboot", "written", "end"),
            E("c01_rounds2", "2 rounds of setting a, b, both or none with reboots and collections, K=1..3", "rebooted"),
            E("c01_rounds3", "the same, 3 rounds", "rebooted"),
            E("c01_many", "70 keys of which any one is changed: stored, collected, read back; more than 256 elements", "end", "more than 256 elements"),
            E("c01_wide", "260 keys, of which any one has any value: stored, read back; more than 256 elements in one record", "end", "more than 256 elements"),
            E("c01_many_kept", "24 keys, 8 kept records", "end"),
            E("c01_orphan", "a third node that lost its owner, or was detached, at any place of the list", "handle dropped", "never completed", "end"),
        ],
        "thorough": [E("c01_rounds5", "the same, 5 rounds", "rebooted")],
        "bounds": "2 keys (4 in c01_types, 70 in c01_many, 260 in c01_wide), values of 2 symbolic bytes (u32, struct, Option<u16> in c01_types), up to "
                  "3 rounds (thorough 5), kept records 1..3, every choice of writers, reboots and collections",
        "assumptions": [MOCK],
    },
    "C02": {
        "quick": [
            E("c02_power1", "stored set, one power loss at any push or invalidation", "after an interrupted write", "write confirmed", "end"),
            E("c02_power2", "the same with two power losses over two boots", "after an interrupted write", "write confirmed", "end"),
            E("c02_fresh", "empty storage, a power loss or failing push", "after an interrupted write", "end"),
            E("c02_errors", "push, invalidation and read errors and cancelled reads", "after an interrupted write", "write confirmed", "end"),
        ],
        "thorough": [E("c02_deep", "two faults of any kind over three boots", "after an interrupted write", "write confirmed", "end")],
        "bounds": "2 keys, 2 symbolic bytes each; 1-2 faults, each at a symbolic operation number, over 1-3 boots plus a "
                  "final fault-free boot; kept records 1..2",
        "assumptions": [MOCK],
    },
    "C03": {
        "quick": [
            E("c03_any4", "4 arbitrary elements out of 6 kinds", "value found", "value not found"),
            E("c03_any5", "5 arbitrary elements out of 5 kinds", "value found", "value not found"),
            E("c03_order3", "3 records, symbolic sequence numbers", "value found"),
            E("c03_damaged3", "3 records, each damaged in one of 6 ways or intact", "value found"),
            E("c03_far", "two records around 250 leftover elements, the later one at a symbolic place around the 256th element", "end"),
            E("c03_any6", "6 arbitrary elements out of 4 kinds", "value found", "value not found"),
        ],
        "thorough": [
            E("c03_order4", "4 records, symbolic sequence numbers", "value found"),
            E("c03_damaged4", "4 records, each damaged or intact", "value found"),
            E("c03_any7", "7 arbitrary elements out of 4 kinds", "value found", "value not found"),
        ],
        "bounds": "storage contents: every sequence of 4 to 6 (thorough 7) elements of the kinds start, end, data for "
                  "key a / b, undecodable, data of another type, with symbolic sequence numbers, CRCs and bytes; or 3 "
                  "(thorough 4) records with symbolic numbers, each intact, truncated, or damaged",
        "assumptions": [MOCK, SEQ, "no valid record holds a key twice"],
    },
    "C04": {
        "quick": [
            E("c04_any4", "4 arbitrary elements, K=1", "collected"),
            E("c04_any5", "5 arbitrary elements, K=1", "collected"),
            E("c04_order4", "4 records, symbolic numbers, K=1..3", "collected"),
            E("c04_damaged3", "3 possibly damaged records, K=1..2", "collected"),
            E("c04_rounds4", "4 rounds of write and collect by the system itself, K=1..3", "end"),
            E("c04_kept", "4, 5, 6 or 8 kept records, two more rounds than that, one reboot anywhere", "end"),
            E("c04_fault2", "2 possibly damaged records, collection cut short once anywhere", "interrupted", "completed"),
            E("c04_fault3", "3 records, collection cut short once anywhere", "interrupted", "completed"),
            E("c04_far", "two records around 250 leftover elements, the later one at a symbolic place around the 256th element", "end"),
        ],
        "thorough": [
            E("c04_any6", "6 arbitrary elements, K=2", "collected"),
            E("c04_order5", "5 records", "collected"),
            E("c04_damaged4", "4 possibly damaged records", "collected"),
            E("c04_rounds6", "6 rounds", "end"),
            E("c04_fault_deep", "2 possibly damaged records, 2 interruptions", "interrupted", "completed"),
            E("c04_fault_deep3", "3 records, 2 interruptions", "interrupted", "completed"),
        ],
        "bounds": "storage contents as in C03 with up to 5 arbitrary elements or 4 records (thorough 6 / 5); kept "
                  "records 1..3; one interruption (error or power loss) at any read or invalidation (thorough two)",
        "assumptions": [MOCK, SEQ],
    },
    "C05": {
        "quick": [
            E("c05_order3", "3 records with symbolic numbers, two writes, optional reboot, K=1..2", "wrote", "end"),
            E("c05_damaged2", "2 possibly damaged records, two writes", "wrote", "end"),
            E("c05_faults", "2 records, two writes, one fault of any kind", "wrote", "end"),
            E("c05_last", "2 records numbered from 2^32-3 on, three writes: the last number, and none after it", "wrote", "the last number", "end"),
            E("c05_last_damaged", "2 possibly damaged records with the last two numbers, two writes", "wrote", "the last number", "end"),
        ],
        "thorough": [E("c05_deep", "2 possibly damaged records, three writes, two faults", "wrote", "end")],
        "bounds": "2-3 records stored before with symbolic numbers, 2 writes (thorough 3), at most 1 fault (thorough 2)",
        "assumptions": [MOCK, "stored sequence numbers below 0xfffffff0, except in c05_last and c05_last_damaged"],
    },
    "C06": {
        "quick": [
            E("c06_lie", "a stored set, one push dropped, corrupted or altered while reporting success", "clean", "lie detected"),
            E("c06_unreadable", "a dropped or corrupted element and a failing read-back in one pass", "lie detected", "lie and unreadable", "clean"),
            E("c06_extra", "one push that also stores something undecodable before or after the element, or the element twice", "clean", "lie detected"),
            E("c06_extra2", "two pushes dropped, or stored with such an addition", "clean", "lie detected"),
            E("c06_fresh", "the same on empty storage", "clean", "lie detected"),
            E("c06_drops", "up to four pushes dropped or corrupted", "clean", "lie detected"),
            E("c06_twice", "two writes with up to two dropped or corrupted pushes", "confirmed", "lie detected"),
        ],
        "bounds": "2 keys, 2 symbolic bytes each; one altered element (any other sequence number or CRC, any burst of up "
                  "to 32 bits in the data), up to four dropped/undecodable elements, or up to two dropped or with an undecodable "
                  "or equal neighbour",
        "assumptions": [MOCK, "alterations of the data that leave its CRC-32 unchanged are beyond what the system can "
                        "detect: a single burst of at most 32 bits, which CRC-32 always detects"],
    },
    "C07": {
        "quick": [
            E("c07_seq4", "every sequence of 4 operations against the gating model", "needs read", "needs gc", "wrote", "unchanged", "wiped", "end"),
            E("c07_seq5", "every sequence of 5 operations", "needs read", "needs gc", "wrote", "unchanged", "wiped", "end"),
            E("c07_pending", "a node that was read but whose attach has not completed is not a change", "nothing to do", "end"),
            E("c07_fault5", "every sequence of 5 of read, collect, write (also with a short buffer) and set, two nodes, one failing or cancelled storage operation", "pushed", "write failed", "end"),
            E("c07_busy_set", "a set begun (and possibly given up) while a pass is suspended in the storage (and possibly cancelled)", "given up", "changed", "nothing changed", "end"),
            E("c07_late_node", "a node attached after reading blocks writes until it has been read", "end"),
        ],
        "thorough": [
            E("c07_seq6", "every sequence of 6 operations, K=1..2", "needs read", "needs gc", "wrote", "unchanged", "wiped", "end"),
            E("c07_fault6", "every sequence of 6 operations with a fault", "pushed", "write failed", "end"),
            E("c07_fault6_lies", "the same, pushes may also be dropped or corrupted silently", "pushed", "write failed", "end"),
        ],
        "bounds": "one node; storage empty, with a record, or with an incomplete record; sequences of up to 5 (thorough "
                  "6) of read, write, collect, reset (with or without wiping the storage), set value; two nodes and one "
                  "fault in c07_fault*",
        "assumptions": [MOCK],
    },
    "C08": {
        "quick": [
            E("c08_once", "one fault of any kind during a write, K=1..2", "failed", "end"),
            E("c08_two", "two faults during a write", "failed", "end"),
            E("c08_rounds", "one fault over two writes", "failed", "end"),
        ],
        "thorough": [E("c08_deep", "two faults over two writes, K=1..2", "failed", "end")],
        "bounds": "2 keys, 2 symbolic bytes each, a stored set; 1-2 faults (error or cancellation of any push, read or "
                  "invalidation) at symbolic operation numbers over 1-2 writes",
        "assumptions": [MOCK],
    },
    "C09": {
        "quick": [
            E("c09_dup4", "two nodes with the same key, two lists, 4 operations", "attach refused", "re-attached", "detach refused", "detached", "attach cancelled", "end"),
            E("c09_two4", "two nodes with different keys, two lists, 4 operations", "attach refused", "re-attached", "detach refused", "detached", "attach cancelled", "end"),
            E("c09_busy2", "while a read, collection or write pass is suspended at any storage operation: two requests (attach, detach, give up the waiting one, drop the handle) on a node in any state; the pass goes on or is cancelled", "attach given up", "detach given up", "detached", "attached", "end"),
            E("c09_busy4", "the same with four requests", "attach given up", "detach given up", "detached", "attached", "end"),
            E("c09_dup5", "the same with 5 operations", "attach refused", "end"),
            E("c09_two5", "the same with 5 operations", "attach refused", "end"),
        ],
        "thorough": [E("c09_busy6", "as c09_busy2 with six requests, K=1", "attach given up", "detach given up", "detached", "attached", "end")],
        "bounds": "every sequence of up to 5 of attach, detach, drop handle, cancel attach, read, set value on two nodes "
                  "and two lists; up to 4 (thorough 6) of attach, detach, give up, drop handle on one node during one pass "
                  "suspended at a symbolic storage operation",
        "assumptions": [MOCK],
    },
    "C10": {
        "quick": [
            E("c10_default", "stored value, missing, or undecodable, in every order; default and write-back", "nothing to write", "default written", "end"),
            E("c10_stable", "values in memory survive later reads", "pending", "end"),
            E("c10_reattach", "detach, re-attach, drop and re-attach", "flushed", "kept", "detached", "end"),
            E("c10_pending2", "between the read and the completion of an attach: passes, reset, giving up, detaching, moving to another list; 2 steps, K=1..2", "written meanwhile", "attached again", "detached", "moved", "end"),
            E("c10_pending3", "the same, 3 steps", "written meanwhile", "attached again", "detached", "moved", "end"),
            E("c10_busy", "an attach begins, waits or completes while a pass is suspended in the storage (and possibly cancelled)", "attached during a pass", "completed during a pass", "waits during a pass", "end"),
            E("c10_many", "several nodes attached at different times", "end"),
        ],
        "thorough": [
            E("c10_pending_deep", "the same, 5 steps, K=1..3", "written meanwhile", "attached again", "detached", "moved", "end"),
        ],
        "bounds": "2 keys (4 in c10_many), 2 symbolic bytes each; values of another type, truncated or missing; up to 3 "
                  "(thorough 5) events between a read and the completion of the attach",
        "assumptions": [MOCK],
    },
    "C11": {
        "quick": [
            E("c11_signal", "every sequence of 5 of attach, set, wait for a request to read or write, stop waiting, give up the attach", "end", "read request", "write request"),
            E("c11_start2", "a worker and two tasks that attach and set, 5 free scheduling decisions, one suspended storage operation", "end", "two writes"),
            E("c11_late_worker", "the worker and a second task start later", "end", "two writes"),
            E("c11_update2", "a worker and two tasks that set values, also during write passes, 7 free decisions", "end", "two writes"),
            E("c11_attach_set1", "one task attaches and sets, another sets meanwhile, next to a worker, 6 free decisions", "end", "two writes"),
            E("c11_preempt1", "a worker and two tasks, one of them interrupted once, at any waker call, critical section or call of the value type's code, for another task to run", "end", "interrupted"),
            E("c11_preempt2", "the same with two interruptions, nested or not", "end", "interrupted"),
            E("c11_preempt_cancel", "as c11_cancel1 with one interruption", "end", "interrupted", "cancelled"),
            E("c11_preempt_update", "a task sets a value twice, another sets one, next to a worker; one interruption, also where the code of the value type is called", "end", "interrupted"),
            E("c11_passes2", "a driver running any two passes next to two attaching tasks", "end"),
            E("c11_passes_err", "the same with a failing read", "end", "failed read"),
            E("c11_cancel1", "a task that sets, attaches or detaches is cancelled at any point", "end", "cancelled"),
            E("c11_cancel_deep", "the same, 6 and 4 free decisions, two suspended operations", "end", "cancelled"),
        ],
        "thorough": [
            E("c11_start_deep", "as c11_start2, 7 free decisions, two suspended operations", "end", "two writes"),
            E("c11_preempt_deep", "as c11_preempt1, 4 free decisions, two interruptions", "end", "interrupted"),
            E("c11_preempt_update_deep", "the same with two interruptions and two suspended operations", "end", "interrupted"),
            E("c11_attach_set_deep", "as c11_attach_set1, 9 free decisions, two suspended operations", "end", "two writes"),
            E("c11_update_deep", "as c11_update2, 9 free decisions, two suspended operations", "end", "two writes"),
        ],
        "bounds": "up to 3 tasks and 3 nodes; the next runnable task (its waker was called) is symbolic for the first 5 "
                  "to 7 (thorough 9) decisions and after that round robin; at most one (two) storage operations "
                  "suspended, each at a symbolic position; values symbolic; kept records 1..2",
        "assumptions": [MOCK, "a task is polled only after its waker was called; the worker serves requests one by one "
                        "(h_sched.rs: worker)", "a task is interrupted only at waker calls and at critical sections, and runs "
                        "on once the other task suspends"],
    },
    "C12": {
        "quick": [
            E("c12_w4", "3 elements of any kind pushed, read, any of them invalidated, another pushed, rebooted: words of 4, pages of 64", "invalidated", "pushed again", "end"),
            E("c12_w1r4", "the same, writes of 1 and reads of 4 bytes", "invalidated", "pushed again", "end"),
            E("c12_w16", "the same, words of 16, pages of 128", "invalidated", "pushed again", "end"),
            E("c12_w8_cache", "the same, words of 8, page pointer cache", "invalidated", "pushed again", "end"),
            E("c12_state_cache", "the same, words of 4, page state cache", "invalidated", "pushed again", "end"),
            E("c12_decode", "up to 12 arbitrary stored bytes", "start", "data", "end", "undecodable"),
            E("c12_mixed", "3 stored items, elements or not, any of them invalidated", "undecodable", "invalidated undecodable", "end"),
            E("c12_mixed_w1", "2 such items, words of 1", "undecodable", "invalidated undecodable", "end"),
            E("c12_largest", "elements of the largest size and up to 2 bytes less, six geometries", "end"),
            E("c12_range", "any range", "end"),
            E("c12_subrange", "a flash of 5 pages of which 2 to 4 are given: all of them are used and nothing else changes", "end"),
            E("c12_full", "filling the flash, then emptying and filling it again", "full", "end"),
            E("c12_power", "power loss at any word written or any third of a page erased", "invalidation cut short", "push cut short", "went on", "end"),
            E("c12_power_wrap", "the same over a page boundary", "invalidation cut short", "push cut short", "went on", "end"),
            E("c12_power_w1", "the same with single byte writes", "invalidation cut short", "push cut short", "went on", "end"),
            E("c12_errors", "a flash operation that fails half-way, without reboot", "invalidation cut short", "push cut short", "iteration cut short", "went on", "end"),
            E("c12_cancel", "an operation cancelled half-way, without reboot", "invalidation cut short", "push cut short", "iteration cut short", "went on", "end"),
            E("c12_stack", "a list of two nodes on the flash, power loss at any word or erase", "after an interrupted write", "write confirmed", "end"),
            E("c12_stack_wrap", "the same, 2 kept records, 4 earlier records", "after an interrupted write", "write confirmed", "end"),
            E("c12_stack_errors", "the same, a flash operation fails half-way", "after an interrupted write", "write confirmed", "end"),
        ],
        "thorough": [
            E("c12_stack_deep", "two faults over two boots, single byte writes", "after an interrupted write", "write confirmed", "end"),
        ],
        "bounds": "flashes of 2 to 4 pages of 64 to 256 bytes, write sizes 1 to 32, read sizes 1 to 8; elements with 2 to "
                  "4 symbolic bytes (all bytes symbolic in c12_decode); one fault (thorough two) at a symbolic flash operation",
        "assumptions": [
            "the flash under the backend is a NOR model (h_flash.rs: Nor): a write clears bits and is cut only between "
            "words, an interrupted erase clears nothing, the first half or all of the page; sequential-storage 7.0.0 "
            "itself is executed, not modelled",
        ],
    },
    "C13": {
        "quick": [
            E("c13_split", "every byte string of up to 6 bytes against a hand-written CBOR text reference", "split", "no key", "empty"),
            E("c13_split_long", "every byte string of 7 and 8 bytes", "split", "no key"),
            E("c13_split_wide", "up to 14 bytes with 8- to 64-bit length headers", "split", "no key"),
            E("c13_new", "preparing an element", "end"),
            E("c13_crc", "up to 12 symbolic bytes fed in any three pieces against a bitwise CRC", "end"),
            E("c13_keys", "keys of 0 to 300 bytes through write, element bytes, split, load", "end"),
            E("c13_keys_utf8", "keys that are not ASCII", "end"),
            E("c13_similar", "two keys of 1 to 40 bytes that differ in any one place, or one continues the other", "end"),
            E("c13_similar_long", "the same with keys of 64 to 257 bytes that differ in one of 13 places", "end"),
            E("c13_large", "values of 22 to 350 bytes under a short and a longer key", "end"),
            E("c13_values", "ten value types, every value, through write, element bytes, split, load", "end"),
            E("c13_stored", "a valid record with an element of arbitrary bytes, loaded", "value", "not a value", "another key", "end"),
        ],
        "thorough": [
            E("c13_split_9", "every byte string of 9 and 10 bytes", "split", "no key"),
            E("c13_crc_long", "40 symbolic bytes", "end"),
        ],
        "bounds": "elements of up to 8 bytes, or 14 with a wide length header (thorough 10); checksums of up to 12 bytes "
                  "(thorough 40); keys of 11 lengths from 0 to 300 with three symbolic bytes; values of ten types, and of 13 lengths from 22 to 350 bytes, 4 of them symbolic",
        "assumptions": ["the storage keeps elements as they are pushed (harness/src/h_elem.rs: Log, or store.rs)"],
    },
    "C14": {
        "quick": [
            E("c14_value", "value length 0..26 around the largest element", "fits", "refused", "end"),
            E("c14_key", "key length 0, 20, 21, 28", "fits", "refused", "end"),
            E("c14_buffer", "buffer length 0..24", "fits", "refused", "end"),
            E("c14_over", "a buffer 1 to 3 bytes larger than the largest element", "fits", "refused", "end"),
            E("c14_check", "the size check for key lengths 0..380 and values of any size up to 65535", "end"),
            E("c14_flash", "value lengths around the largest element of the real flash backend, with and without a larger buffer", "fits", "refused", "end"),
        ],
        "bounds": "value lengths 0..26, four key lengths, buffer lengths 0..27, largest element 24 bytes; both orders; the "
                  "size check alone: key lengths 0, 1, 23, 24, 100, 255, 256, 380 and every value size up to 65535, largest "
                  "element 400 bytes; the flash backend: key of 20 bytes, values of 20..26, pages of 64",
        "assumptions": [MOCK],
    },
    "C15": {
        "quick": [
            E("c15_two", "two records, one failed or cancelled read", "failed read", "end"),
            E("c15_late", "the same with a node attached between the attempts", "failed read", "end"),
            E("c15_damaged", "a damaged record, two failed or cancelled reads", "failed read", "end"),
            E("c15_buffer", "up to two reads, then a collection, with a buffer of 0 to 24 bytes, repeated with a sufficient one", "too small", "too small to collect", "end"),
            E("c15_between1", "a failed or cancelled read (not the first of the list), then sets, write passes and collections before it is repeated", "one of two loaded", "set between", "end"),
            E("c15_between2", "the same for the first read, three operations in between", "one of two loaded", "set between", "end"),
            E("c15_between3", "the same, four operations in between", "one of two loaded", "set between", "end"),
            E("c15_three", "three records, two failed or cancelled reads, K=1..2", "failed read", "end"),
        ],
        "thorough": [E("c15_deep", "three possibly damaged records, two failures, late node", "failed read", "end")],
        "bounds": "2-3 records with symbolic numbers, 1-2 read errors or cancellations at symbolic positions",
        "assumptions": [MOCK, SEQ],
    },
    "C16": {
        "quick": [
            E("c16_two", "attach and set at two symbolic times, virtual clock", "durable", "second attach", "end"),
            E("c16_close", "attach and set at three symbolic times, each within 11 s of the one before: around the ends of both debounce times", "durable", "second attach", "end"),
            E("c16_clean1", "too many records, an incomplete record, damaged elements or a stray element in the storage; one event or none: all of it is removed", "after a change", "without a change", "end"),
            E("c16_late", "as c16_two, the worker may run after an event although its timer expired before", "durable", "late", "end"),
            E("c16_error1", "one event, one failing storage operation anywhere, one more event", "error", "set after", "end"),
            E("c16_error2", "the same with two events", "error", "set after", "end"),
            E("c16_both", "two nodes attached before the worker first runs, one failing storage operation, then a change or an attach", "set with another one waiting", "attach after", "end"),
            E("c16_stop1", "stop signal at any time after one event", "flushed", "stopped while attaching", "end"),
            E("c16_stop2", "stop signal at any time after two events", "flushed", "flushed while attaching", "end"),
            E("c16_stop_busy1", "stop signal while any storage operation is under way, after one change", "flushed", "stopped during an operation", "end"),
            E("c16_stop_busy2", "the same after two events", "flushed", "stopped during an operation", "end"),
            E("c16_slow2", "one storage operation takes a symbolic time, during which nodes are attached and values set", "attached during an operation", "set during an operation", "end"),
            E("c16_slow_stop", "the same, then the stop signal at any time", "stopped", "set during an operation", "end"),
            E("c16_error_stop2", "one failing storage operation, events before and after it, then the stop signal at any time", "flushed", "set after", "attach after", "end"),
            E("c16_noop", "the no-op worker, two nodes with symbolic defaults", "end"),
        ],
        "thorough": [
            E("c16_clean2", "as c16_clean1 with two events", "after a change", "end"),
            E("c16_three", "attach and set at three symbolic times", "durable", "second attach", "end"),
            E("c16_slow3", "a slow storage operation, three events", "attached during an operation", "set during an operation", "end"),
            E("c16_slow_stop3", "a slow storage operation, three events and the stop signal", "stopped", "set during an operation", "end"),
            E("c16_error_stop3", "a failing storage operation, three events and the stop signal", "flushed", "set after", "attach after", "end"),
            E("c16_four", "attach and set at four symbolic times", "durable", "second attach", "end"),
        ],
        "bounds": "2 keys; up to 2 (thorough 4) events (attach, set) and a stop signal, each after a symbolic gap of up "
                  "to 130-200 s in microseconds; at most one failing push, read or invalidation; durable within 60 s "
                  "of the last event",
        "assumptions": [MOCK, "embassy-time is driven by the harness's virtual clock; a timer wakes the worker exactly "
                        "at expiry or (c16_late) after the next event"],
    },
    "C17": {
        "quick": [
            E("c17_order", "3 records with symbolic numbers, K=1..2", "end"),
            E("c17_damaged", "2 possibly damaged records, K=1..2", "end"),
            E("c17_kinds1", "a record of up to 3 elements: known key, other key, unknown key, three that do not decode; K=1..2", "end"),
            E("c17_sizes", "two records of up to 1 such element, any overhead of up to 256 MiB per element", "end"),
            E("c17_kinds2", "two records of up to 1 such element", "end"),
        ],
        "thorough": [
            E("c17_kinds_deep", "two records of up to 2 such elements", "end"),
            E("c17_deep", "4 possibly damaged records, K=1..3", "end")],
        "bounds": "2-3 records (thorough 4) with symbolic numbers, possibly damaged; two reads, two writes, three collections",
        "assumptions": [MOCK, SEQ],
    },
    "C18": {
        "quick": [
            E("c18_seq5", "every sequence of 5 operations on a node with an owning value type", "detached", "overwritten", "end"),
            E("c18_seq6", "every sequence of 6 operations", "detached", "overwritten", "end"),
        ],
        "thorough": [E("c18_seq7", "every sequence of 7 operations", "detached", "overwritten", "end")],
        "bounds": "one node, one list, up to 6 (thorough 7) of attach, read, poll, cancel, drop, detach, set, write; heap "
                  "accesses checked for use after free, double free and bounds",
        "assumptions": [MOCK],
    },
    "C19": {
        "quick": [E("c19_schema", "13 schema changes with symbolic field values, other values before and after in the record, with or without a reboot", "end")],
        "bounds": "one value of up to three fields between two others; add optional / defaulted / mandatory, remove (also "
                  "with gaps), make mandatory, retype, renumber, widen, add / remove an enum variant, upgrade and downgrade",
        "assumptions": [MOCK],
    },
}
