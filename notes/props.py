import json
SL="crates/cfg-noodle/src/storage_list.rs"; SN="crates/cfg-noodle/src/storage_node.rs"; LIB="crates/cfg-noodle/src/lib.rs"
FL="crates/cfg-noodle/src/flash.rs"; WT="crates/cfg-noodle/src/worker_task.rs"; DP="crates/cfg-noodle/src/data_portability.rs"
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)
p("C01","A successfully written configuration survives reboots and collections",
 "After a write pass reports success, every value that was set before it on an attached node is what a freshly booted list loads for that key, whatever reboots and garbage collections happen in between. Values of other attached nodes are carried along unchanged. This holds for every value of every encodable type and every number of kept records.",
 ["histories","inputs","configurations"],"all sequences of setting values on any subset of the nodes, write passes, collections and reboots; all values; kept records 1 and up",
 "The tests write a handful of constants through one or two write/reboot rounds; they cannot cover all values, who-writes-when patterns and kept-record counts.",
 [SL,SN],[("writing a complete record of all nodes",SL+": process_writes, write_to_flash, serialize_node"),("loading from the newest record",SL+": process_reads, extract_all"),("encoding and decoding a node",SN+": serialize, deserialize")],
 [("newest records","which records the scan found valid",SL+": SeqState")],["NdlDataStorage::push","StorageListNodeHandle::load after a boot"])
p("C02","A power loss or failure leaves the old or the new configuration, never a mix",
 "If power is lost, an operation is cancelled, or a storage operation fails at any point during writing or garbage collection, the next boot loads either the complete last confirmed set of values or the complete set being written. It never loads a mixture of the two, never falls back to defaults or to an older set, and never fails because of what the interruption left behind.",
 ["crash_points","fault_sequences","inputs"],"every operation on the storage as the point of failure, every outcome of the interrupted operation (done, not done, undecodable remainder), repeated interruptions over several boots, all values",
 "The integration tests inject a few fixed corruption patterns; the crash points, their combinations over several boots and what each interrupted operation leaves are a product space.",
 [SL],[("start/data/end framing with a checksum",SL+": write_to_flash, verify_list_in_flash"),("only complete records are considered",SL+": get_or_populate_latest"),("collection never removes the kept records",SL+": process_garbage"),("garbage collection is required after an incomplete write",SL+": process_writes")],
 None,["storage contents at the point of interruption","values loaded by the next boot"])
p("C03","Reading uses only the newest valid record and changes nothing",
 "Whatever elements the storage contains, reading succeeds, leaves the storage unchanged, and loads for each key the value held by the complete, checksum-correct record with the highest sequence number, wherever it lies. A node whose key that record does not hold, or holds with a value of another type, gets its default; incomplete, corrupted, mismatched or undecodable elements never influence a loaded value.",
 ["inputs","histories"],"all storage contents: any sequence of start, data, end and undecodable elements with any sequence numbers, checksums and bytes",
 "Tests place a few hand-made damaged records; arbitrary element sequences with arbitrary sequence numbers and CRCs are out of reach of examples.",
 [SL,LIB],[("scan for valid records",SL+": get_or_populate_latest"),("extraction from the newest one",SL+": extract_all"),("order by sequence number",SL+": SeqState::insert_good, highest_seen"),("checksum",LIB+": Crc32")],
 None,["values loaded after process_reads","storage contents before and after"])
p("C04","Garbage collection keeps exactly the newest records, even when interrupted",
 "A completed garbage collection leaves exactly the elements of the newest valid records, as many as the list is configured to keep (or all, if fewer), intact and in order, and removes every other element. A collection that fails or is interrupted at any point loses nothing of those records, and running collection again completes the work. Collecting again afterwards removes nothing.",
 ["inputs","crash_points","histories","configurations"],"all storage contents, sequence numbers in any order, kept records 1 and up, every interruption point",
 "Tests collect after a few regular writes; arbitrary contents, sequence orders and interruption points are a quantified space.",
 [SL],[("removing everything outside the kept ranges",SL+": process_garbage"),("bookkeeping of the newest records",SL+": SeqState::insert_good"),("rescan after collecting",SL+": get_or_populate_latest")],
 [("kept ranges","element positions of the newest valid records",SL+": GoodWriteRecord.range")],["NdlElemIterNode::invalidate","storage contents after process_garbage"])
p("C05","A new record is numbered above every valid record in the storage",
 "Every record that is written carries a sequence number greater than that of every valid record then in the storage, whatever was stored before, after reboots, collections, failed reads and failed writes. So the record just confirmed is always the one the next read takes.",
 ["histories","inputs","fault_sequences"],"all stored sequence numbers and orders, all sequences of writes, reboots, collections and faults",
 "Tests start from empty or fixed storages; the numbering depends on everything that happened before.",
 [SL],[("next number from the highest seen",SL+": process_writes, write_to_flash"),("scan only counts when completed",SL+": get_or_populate_latest"),("ordered insertion",SL+": SeqState::insert_good")],
 None,["sequence number of pushed start elements"])
p("C06","A write pass reports success only if the storage really holds the values",
 "If the storage claims success but dropped, corrupted or altered an element, the write pass reports an error, keeps the values in memory as still to be written, and a later pass can write them. A faithfully stored write is reported as successful. (Alterations that leave the 32-bit checksum unchanged are excepted.)",
 ["fault_sequences","inputs"],"every element that may be dropped or altered, every altered content, all values",
 "No existing test uses a storage that lies; the altered contents are an unbounded input.",
 [SL,LIB],[("reading back and comparing checksum and number",SL+": verify_list_in_flash, write_to_flash"),("checksum",LIB+": Crc32"),("state kept until verified",SL+": process_writes, mark_initial_nonresident")],
 None,["result of process_writes","next boot's values"])
p("C07","Writing waits for a read and a collection; nothing changed, nothing written",
 "A write pass touches the storage only after this boot has scanned it and loaded every attached node; before that it reports that a read is needed. If the storage held anything when it was scanned, or something was written since, it first demands a garbage collection. If no value changed since the last confirmed write and a valid record exists it does no storage access at all, and after the cached state is reset and the storage wiped, the values in memory are written again.",
 ["histories"],"all sequences of reading, writing, collecting, resetting, wiping, setting values and attaching nodes",
 "Tests follow the expected order of calls; the gating is about every other order.",
 [SL],[("refusals",SL+": process_writes"),("is anything to write",SL+": needs_writing"),("collection needed",SL+": StorageListInner.needs_gc, process_garbage"),("forgetting",SL+": reset_cache")],
 [("needs_gc","a collection has to precede the next write",SL)],["error returned by process_writes","calls on the storage"])
p("C08","A failed or cancelled write loses no value and retrying succeeds",
 "If a write pass fails or is cancelled anywhere, all values set by the application stay readable unchanged and stay scheduled for writing. Doing what the returned errors ask for (reading, collecting, writing again) leads to a successful write after a bounded number of attempts once the storage works, and then a reboot loads them.",
 ["fault_sequences","crash_points","inputs"],"every failing or cancelled operation and combinations of them, all values",
 "Tests inject at most one error in one place; which operation fails and how is quantified.",
 [SL,SN],[("states advanced only after verification",SL+": write_to_flash, process_writes"),("collection required after a failed write",SL+": process_writes"),("handle's value untouched by i/o",SN+": load, write")],
 None,["values loaded from handles after a failed write","result of the retry"])
p("C09","Handles are exclusive; attaching, detaching and cancelling follow ownership",
 "At most one handle (or pending attach) per node and one attached node per key exist at a time: attaching fails with the documented error if the node is taken, belongs to another list, or another attached node has its key, and otherwise succeeds. Detaching succeeds exactly if no handle or pending attach exists and it is the right list; dropping a handle or cancelling an attach frees the node for the next attach. No failed operation changes what others hold.",
 ["histories"],"all sequences of attach, detach, drop, cancel, read and set on nodes with equal and different keys and two lists",
 "Tests try one duplicate attach and one detach; interleaved sequences are quantified.",
 [SN,SL],[("taken flag and list pointer checks",SN+": attach_with_default, detach, Drop for StorageListNodeHandle"),("duplicate key lookup",SL+": StorageListInner::find_node")],
 [("taken","a handle or pending attach exists",SN+": StorageListNode")],["results of attach and detach"])
p("C10","A node gets its stored value or default and keeps it until the application acts",
 "When an attach completes, the handle holds the value stored under the node's own key if there is one that decodes, else the default supplied with the attach, and other nodes are unaffected; a default is written back with the next write pass. Once loaded, a value changes only through its handle: later reads, nodes attached later, resets and whatever the storage holds then do not alter it. Dropping and re-attaching keeps value and pending change; after a detach the next attach loads from the storage again.",
 ["histories","inputs"],"all stored values (right type, wrong type, truncated, missing), attach orders, and later reads, writes and re-attaches",
 "Tests use fixed values and the regular order; decode failures, late attaches and re-attaches combine.",
 [SN,SL],[("hydration",SL+": extract_all; "+SN+": deserialize"),("default",SN+": attach_with_default; "+SL+": mark_initial_nonresident"),("write-back of defaults",SL+": needs_writing")],
 [("node state","initial, nonresident, default, valid, needs write",SN+": State")],["StorageListNodeHandle::load"])
p("C11","Interleaved tasks never lose a wake-up or an update",
 "When attaching, setting values, reading, writing and collecting run as interleaved tasks, every attach completes once a read pass that started after it has completed, no task waits forever for something that already happened, and a value set at any time, also during a write pass, is read back unchanged and is durable after the next successful write pass. Requests to read or write signalled before someone waits for them are not lost.",
 ["schedules","inputs"],"all interleavings of the tasks at their suspension points, all values",
 "Tests run under one executor schedule each.",
 [SL,SN],[("list lock and wait queues",SL+": StorageList.inner, needs_read, needs_write, reading_done"),("state re-check while waiting",SN+": attach_with_default"),("dirty states",SN+": write; "+SL+": write_to_flash")],
 None,["completion of futures","values after the schedule"])
p("C12","Elements stored through the flash backend read back exactly or not at all",
 "Every element pushed to the flash backend is later yielded in order with exactly the same kind, number, checksum and bytes until it is invalidated, and invalidating one removes that one only. Any stored bytes that do not form a well-formed element are yielded as undecodable, never as something else, and the advertised maximum element size can actually be pushed. A push or invalidation cut short by a power loss or a flash error affects no other element. Reported sizes match what is stored.",
 ["inputs","histories","crash_points"],"all element contents and lengths up to the maximum, all raw item bytes, sequences of pushes and invalidations over page boundaries, power loss between flash operations",
 "Tests exercise the backend with regular records only, through the whole system.",
 [FL],[("encoding",FL+": Flash::push"),("decoding",FL+": HalfElem::from_bytes, FlashNode::data"),("size limit and overhead",FL+": MAX_ELEM_SIZE, size_with_overhead")],
 None,["NdlElemIter::next, NdlElemIterNode::data, len"])
p("C13","Splitting stored bytes into key and value is total and agrees with the encoder",
 "For every byte string, splitting a data element into key and value either fails with an error or yields the key text and exactly the bytes following it; it never panics and never reads outside the element. For every key and value, what the system encodes splits back into that key and that value's bytes, and the checksum is the CRC-32/CKSUM (polynomial 0x04c11db7, no reflection, final inversion) of everything after the element headers.",
 ["inputs"],"all byte strings up to the bound, all keys and values",
 "Tests only feed well-formed elements.",
 [LIB,SL,SN],[("splitting",LIB+": SerData::kv_pair"),("wrapping",LIB+": SerData::new, from_existing"),("encoding",SL+": serialize_node; "+SN+": serialize"),("checksum",LIB+": Crc32")],
 None,["SerData::kv_pair, key_val, hdr","Crc32::finalize"])
p("C14","Values that do not fit are refused without a panic and without harm",
 "A value whose element exceeds the storage's maximum element size or the buffer supplied is refused with an error, not a panic; stored values and the values in memory stay intact, and after setting a smaller value or supplying a larger buffer the write succeeds. Everything that fits is written. The size check predicts exactly whether key and value fit the storage.",
 ["inputs","configurations"],"all key and value lengths around the limits, all buffer sizes, all positions in the list",
 "Tests use generous buffers and small values.",
 [SL,SN,LIB],[("bounded serialization",SL+": serialize_node; "+SN+": serialize"),("size check",LIB+": check_node_size")],
 None,["result of process_writes","check_node_size"])
p("C15","A failed or cancelled read, retried, gives what an undisturbed read gives",
 "If reading fails or is cancelled at any point, retrying it once the storage works loads exactly the values an undisturbed read would have loaded, completes all waiting attaches, and later collections keep exactly the right records. No node ever gets a default or an older value because a read was cut short, and the storage is not changed.",
 ["fault_sequences","inputs"],"every read operation as the failing or cancelled one, several failures in a row, all stored contents, nodes attached between the attempts",
 "One existing test fails the very first read; the other positions and partially completed scans are not sampled.",
 [SL],[("scan results committed only when complete",SL+": get_or_populate_latest"),("states set only after extraction",SL+": process_reads, extract_all, mark_initial_nonresident")],
 None,["values after the retry","storage contents after a collection"])
p("C16","The default worker eventually reads, writes and flushes everything",
 "While the default worker runs, every attach completes and every value that was set is durable within a bounded time after the last change, in whatever order and at whatever times attaches and sets arrive, and what the storage no longer needs is collected within a few minutes of the first read, even if nothing changes. If a storage operation fails on the way, the next attach or change gets everything done. When its stop signal fires, even in the middle of an operation, pending values are written before it returns, provided the storage works again and its contents have been read. The no-op worker completes every attach with the default.",
 ["schedules","histories","fault_sequences"],"all arrival times of attaches, sets and the stop signal relative to the worker's timers, transient storage errors",
 "Real timers of 100 ms, 10 s and 120 s make tests of this impractical; a virtual clock with symbolic event times covers all orders.",
 [WT,SL],[("signal, debounce and dispatch",WT+": default_worker_task"),("shutdown flush",WT+": default_worker_task after the stopper"),("no-op",WT+": no_op_worker_task")],
 None,["storage contents over virtual time"])
p("C17","Reported byte counts are the bytes actually read, written and removed",
 "The counters returned by reading, writing and collecting equal the sizes the storage reported for the elements read, pushed and removed in that pass, and the size of the current record. A pass that does nothing reports zero.",
 ["inputs","histories"],"all storage contents, valid and damaged, through read, write and collection passes",
 "Only individual counts are printed by tests, none are checked against the storage.",
 [SL],[("counting",SL+": process_reads, process_writes, process_garbage and their helpers")],
 None,["ProcessReadCounters, ProcessWriteCounters, ProcessGarbageCounters"])
p("C18","Each configuration value in memory is constructed once and dropped once",
 "A node owns at most one value at any time: loading, defaulting, overwriting, re-attaching and detaching never duplicate, leak, drop twice or use a dropped value, also when an attach is cancelled or a stored value does not decode. After detaching nothing of the value remains.",
 ["histories","inputs"],"all sequences of attach, read, cancel, drop, set, write and detach with a value type that owns memory; stored values that decode, do not decode or are missing",
 "Tests use plain-data types for which these errors are invisible.",
 [SN],[("manual initialisation and drop",SN+": attach_with_default, detach, write, deserialize")],
 [("body","possibly uninitialised value guarded by the node state",SN+": Node")],["number of live instances of an owning value type"])
p("C19","Values survive the documented schema changes between firmware versions",
 "Adding optional or defaulted fields, removing fields and making optional fields mandatory with a default keep the other fields' stored values; adding a mandatory field makes that value fall back to its default without affecting other values. Values survive an upgrade followed by a downgrade.",
 ["inputs","histories"],"all field values, the documented schema changes in both directions",
 "The documentation example uses constants and floats.",
 [DP,SN,SL],[("decoding with the node's own type",SN+": deserialize"),("fallback to the default",SL+": mark_initial_nonresident; "+SN+": attach_with_default")],
 None,["StorageListNodeHandle::load after re-attaching with another type"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
