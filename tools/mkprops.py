#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=list(observe),hook_needed=None)))

# ---------------------------------------------------------------- locking
p("C01","Lock-queue state is accessed only under its mutex, which is always released",
 "The shared lock queue of a database (its tail, its free cells and the links of its nodes) is read for decisions and changed only by a process that holds the queue mutex. Every lock-manager operation (take, release or time out of a read or write lock) gives the mutex back exactly once on every path, including all failure paths, and never sleeps while holding it.",
 ["schedules","inputs"],"every interleaving of processes and every outcome (grant, allocation failure, timeout, wake-up) of each lock operation",
 "Tests run a handful of uncontended or lightly contended schedules and never exhaust lock cells or time out; a path that leaves the mutex taken or touches the queue outside it only shows as a rare hang or corruption.",
 ["Db/dblock.c","Db/dblock.h"],[("lock_queue/unlock_queue around the queue operations","Db/dblock.c db_wlock/db_rlock/db_wulock/db_rulock"),("ALLOC_LOCK / DEQUEUE_LOCK","Db/dblock.c")],
 [("locks.queue_lock","queue mutex word","Db/dballoc.h db_lock_area"),("locks.tail / freelist","shared queue state","Db/dballoc.h")],["wg_start_write","wg_start_read","wg_end_write","wg_end_read"])
p("C02","A lock is reported as acquired only when it really has been granted",
 "Starting a read or write transaction returns a lock id only if the request could be granted at once (an empty queue, or a read request behind a read request that itself holds the lock) or after the releasing process has marked this request as granted. A wait that ends for any other reason, such as a signal or spurious wake-up, is not taken for a grant, so an exclusive writer never runs together with another writer or reader.",
 ["schedules","fault_sequences"],"every interleaving of lock requests and releases, every reason for which a wait can end",
 "Signals and spurious wake-ups during a wait, and three-party queues mixing readers and writers, are not produced by the tests; a wrong grant is a race that usually goes unnoticed.",
 ["Db/dblock.c"],[("waiting flag re-check around the futex wait","Db/dblock.c db_wlock/db_rlock"),("class test of the predecessor","Db/dblock.c db_rlock")],
 [("lock_queue_node.waiting","1 until granted","Db/dblock.h"),("lock_queue_node.class","read or write","Db/dblock.h")],["wg_start_write","wg_start_read"])
p("C03","A failed lock request returns zero and leaves nothing in the queue",
 "When a lock request fails (no free lock cell, a timed-out wait) it returns 0, its node has been unlinked from the queue and given back to the free cells, and it leaves no granted or waiting entry that later requests could queue up behind. A successful request returns a non-zero id whose node stays in the queue until the matching release, which unlinks and frees it.",
 ["schedules","fault_sequences"],"every point at which a request can fail, every position of the request in the queue",
 "The test-suite never lets a wait time out nor exhausts the lock cells, so the failure paths are not executed at all.",
 ["Db/dblock.c"],[("DEQUEUE_LOCK + free_lock on timeout","Db/dblock.c"),("ALLOC_LOCK","Db/dblock.c")],[],["wg_start_write","wg_start_read"])
p("C04","Releasing a lock hands it to the requests waiting behind it",
 "Whenever a lock is released and requests wait behind it that become compatible (the next request, and for a granted read request the read requests that follow it), each such request is marked granted and woken, with the grant mark made before the wake-up. A waiter is never left asleep because its predecessor left the queue.",
 ["schedules"],"every queue content at the moment of a release or a grant",
 "Needs specific queue contents (reader behind writer behind reader, several waiting readers) at the moment of a release; tests take and release locks from one process.",
 ["Db/dblock.c"],[("grant and futex_wake of the successor","Db/dblock.c db_wulock/db_rulock/db_rlock")],[],["wg_end_write","wg_end_read","wg_start_read"])
p("C05","Every lock taken by library code and tools is released on every path",
 "Each library function, command line tool and server routine that starts a read or write transaction ends it exactly once, with the matching end call and the id it was given, on every path through it that continues or returns, including all error paths; a transaction whose start failed is not treated as started (a failed end call may be retried). A tool or server operation that changes records, or imports data, while it holds a lock holds a write lock; no operation ends the process or thread with a lock held.",
 ["inputs","fault_sequences"],"every path of every function that takes a database lock",
 "Error paths between taking and releasing a lock (I/O failure, bad argument, failed write) are not reached by tests, and a lock left behind blocks other processes rather than the tested one.",
 ["Db/dbdump.c","Main/wgdb.c","Main/gendata.c","Main/stresstest.c","Server/dserve.c"],[("wg_start_read/wg_end_read pairing","Db/dbdump.c wg_dump"),("RLOCK/WLOCK/RULOCK/WULOCK","Main/wgdb.c")],[],["wg_dump","wgdb","dserve"])

# ---------------------------------------------------------------- journal
p("C06","Logged changes reach the journal before the database changes",
 "While journaling is active, every operation that creates or deletes a record or changes a field or the metadata of a record, and every encoding of a value that allocates shared storage, writes its journal entry before (for a new offset: immediately after) it changes shared data. An operation whose journal entry cannot be written fails with an error and leaves the record data, indexes and reference links unchanged.",
 ["histories","crash_points","fault_sequences"],"every logged operation, every state of the journal, every I/O failure of the journal write",
 "The log tests replay a few operations of a few types with a healthy disk; they never fail a journal write and do not look at the order of effects.",
 ["Db/dblog.c","Db/dbdata.c"],[("wg_log_* call preceding the mutation","Db/dbdata.c wg_set_field, wg_set_new_field, wg_create_record, wg_delete_record, wg_encode_*")],[("logging.active","journaling switch","Db/dballoc.h")],["wg_set_field","wg_create_record","wg_delete_record","journal file"])
p("C07","Journal entries are written and read back with the same layout",
 "For every kind of journal entry, and for every type of value in it, replay consumes exactly the sequence of fields that logging produced, in the same order, with the same width and the same length rules, so replay stays in step with the stream and reproduces the logged values. An entry kind or value type that can be written has a matching branch in replay.",
 ["inputs","histories"],"every journal entry kind, every value type and size",
 "Tests replay a small set of strings and small integers; layouts that disagree only for large integers, blobs or strings with language/prefix part are never replayed.",
 ["Db/dblog.c"],[("wg_log_create_record/delete/set_field/encode vs recover_journal/recover_encode","Db/dblog.c")],[],["wg_replay_log"])
p("C08","Journal I/O failures are detected and never leave the journal half-set-up",
 "Every failing system call while opening, rotating, locking, appending to or reading the journal makes the calling operation return an error code. No file descriptor or stream opened for the journal is lost on a failure path, and a descriptor that has been closed is not kept for later writes. A journal that still holds entries is never truncated or moved away; entries are written only through a descriptor whose file was verified and is the current journal, and only after the journal was marked as holding entries.",
 ["fault_sequences"],"every failure of open/read/write/lseek/lock/rename on every path of the journal code",
 "No test makes a journal system call fail.",
 ["Db/dblog.c"],[("return code checks in open_journal, write_log_buffer, check_journal, recover_journal","Db/dblog.c")],[("db_handle_logdata.fd","cached journal descriptor","Db/dblog.h")],["wg_start_logging","wg_stop_logging","wg_replay_log","wg_set_field"])
p("C09","Replay does not journal itself and leaves journaling in a defined state",
 "Replaying a journal or importing a dump switches journaling off before the first change to the database, so replayed changes are not journaled again, and when it returns, journaling is either active with a fresh journal (success, if it was active) or reported as failed with an error code. A journal that fails validation is rejected before the first change to the database; -1 means that nothing was changed, success that the journal was marked clean before journaling was restarted, and a failing replay step is never reported as success.",
 ["histories","fault_sequences"],"every replay or import, successful or failing at any point",
 "Tests replay one well-formed journal; the state after failing replays is not examined.",
 ["Db/dblog.c","Db/dbdump.c"],[("logging.active reset in wg_replay_log","Db/dblog.c"),("wg_start_logging after import","Db/dbdump.c")],[],["wg_replay_log","wg_import_dump"])

# ---------------------------------------------------------------- dump / attach
p("C10","Dumping reports success only for a complete, consistent image",
 "A dump returns success only if the header and the complete used part of the memory image were written by successful I/O calls while a lock on the database was held, so that no writer could change the image meanwhile; every failed open, write, seek or flush yields a non-zero result. The checksum stored in the file is that of the whole image written, and the journal is marked clean only after a complete dump. Apart from the journaling state the dump never modifies the database image, and it releases the lock and file on every path.",
 ["schedules","fault_sequences","inputs"],"every I/O failure, every concurrent writer",
 "Tests dump a quiescent database to a healthy disk.",
 ["Db/dbdump.c"],[("wg_start_read/wg_end_read around the fwrite loop","Db/dbdump.c wg_dump"),("fwrite/fopen result checks","Db/dbdump.c")],[],["wg_dump"])
p("C11","A rejected dump import leaves the memory image untouched",
 "Importing a dump validates the file (readable, database image, compatible version and features, fits the segment, matching checksum) before it changes anything, and returns the non-fatal error without having modified the memory image if any of this fails. A failure after the first modification is always reported with the distinct fatal code, never as success or as a non-fatal error.",
 ["inputs","fault_sequences"],"every dump file content and every I/O failure",
 "Tests import one good file; truncated, mismatching or failing files are not explored.",
 ["Db/dbdump.c"],[("wg_check_dump before fread into the segment","Db/dbdump.c wg_import_dump"),("error codes -1/-2","Db/dbdump.c")],[],["wg_import_dump","wg_check_dump"])
p("C12","Attaching hands out a handle only for a compatible, initialised segment",
 "A database handle is returned to the caller only for a memory segment whose header carries the right magic, version and feature bits and which is large enough for the request; a new segment is marked as a valid database only after all of its header areas have been initialised successfully. On any failure the result is a null handle.",
 ["configurations","fault_sequences","schedules"],"every header content found in an existing segment, every failure during initialisation, every moment at which another process attaches",
 "Tests attach to segments created by the same build a moment ago.",
 ["Db/dbmem.c","Db/dballoc.c"],[("wg_check_header_compat","Db/dbmem.c"),("mark set last","Db/dballoc.c wg_init_db_memsegment")],[("mark","header magic","Db/dballoc.h")],["wg_attach_database","wg_attach_existing_database","wg_attach_memsegment"])
p("C13","Failure paths of the library release every resource they acquired",
 "Every library call releases the file handles, descriptors, private heap blocks, memory mappings, memory pools, query objects and result sets it acquired when it fails part-way, and on success keeps only what it hands to the caller; nothing is released twice or used after it was released.",
 ["fault_sequences","inputs"],"every exit of every library function that acquires a resource",
 "Leaks and double releases on failure paths are invisible to tests that only check results of successful calls.",
 ["Db/dbdump.c","Db/dblog.c","Db/dbmem.c","Db/dbquery.c","Db/dbjson.c","Db/dbutil.c","Db/dbmpool.c","Db/dbhash.c"],[("free/fclose/close/wg_free_mpool/wg_free_query on error exits","Db/*.c")],[],["all library calls"])

# ---------------------------------------------------------------- allocation & api
p("C14","Running out of shared memory is reported and never overwrites data",
 "Every result of a shared-memory allocation is checked before it is used as an address or stored as a link; when memory is exhausted the operation that needed it reports failure. In particular no write is made through the zero offset, which is the database header.",
 ["fault_sequences","histories"],"every allocation in every operation, failing at any time",
 "Exhaustion happens at one allocation out of dozens per operation; the tests fill memory in only one pattern and check neither the header nor the intermediate failures.",
 ["Db/dballoc.c","Db/dbdata.c","Db/dbhash.c","Db/dbindex.c","Db/dbschema.c"],[("zero checks after wg_alloc_fixlen_object / wg_alloc_gints","Db/*.c")],[],["wg_create_record","wg_set_field","wg_encode_str","wg_create_index"])
p("C15","API calls reject invalid database pointers and field numbers",
 "Every public record, field, value, traversal, locking, index creation, query and JSON call verifies the database pointer before it uses it, and every call that takes a record and a field number verifies that the number is neither negative nor beyond the length of the record before it reads or writes the field; violations give the documented error result and have no effect.",
 ["inputs"],"every argument value of every public call",
 "Tests pass a few wrong arguments to a few calls.",
 ["Db/dbdata.c","Db/dblock.c","Db/dbindex.c","Db/dbquery.c","Db/dbdump.c","Db/dblog.c","Db/dbjson.c"],[("dbcheck(db)","Db/*.c"),("fieldnr range checks","Db/dbdata.c")],[],["dbapi.h functions"])
p("C16","A stored value is followed into shared memory only as what its type tag says",
 "Every function that decodes, measures, compares, hashes, releases or rewrites a stored value follows it as an offset only after it has established that the value's tag bits mark an offset to just the kind of object it then accesses (full integer, double, short string, long string); NULL, records and immediate values are never followed as any of these. The typed decoders for integers, doubles, fixed point, dates, times and strings end with their error value, without reading shared memory, when they are given a value of another type. (The decoders for characters, variables and records do not check the type of their argument and never follow it.)",
 ["inputs"],"every kind of encoded value passed to every function that takes one",
 "Tests decode mostly values of the right type; a wrong-type decode reads arbitrary memory silently.",
 ["Db/dbdata.c","Db/dbquery.c","Db/dbhash.c"],[("type tests in wg_decode_*","Db/dbdata.c"),("free_field_encoffset, find_create_longstr","Db/dbdata.c"),("wg_free_query_param","Db/dbquery.c")],[("tag","low bits of an encoded value","Db/dbdata.h")],["wg_decode_int","wg_decode_double","wg_decode_str","wg_decode_date","wg_free_query_param"])
p("C17","Errors inside public write operations are always visible in their result",
 "If any internal step of a public write operation (journal, allocation, index update, reference update, string release) reports failure, the operation returns a failure result; success is returned only when every step succeeded.",
 ["fault_sequences"],"every internal failure in every public write operation",
 "Internal failures need exhausted memory, full disks or corrupt structures at a precise step.",
 ["Db/dbdata.c","Db/dbindex.c","Db/dbschema.c","Db/dbjson.c"],[("error code propagation in wg_set_field, wg_delete_record, wg_create_record","Db/dbdata.c")],[],["wg_set_field","wg_delete_record","wg_create_index"])

# ---------------------------------------------------------------- record semantics
p("C18","Indexes follow every change of record data",
 "Whenever a field of a record is changed through the API the record is removed from the affected indexes while it still holds the old value and inserted again once it holds the new one; creating a record inserts it and deleting a record removes it before its storage is released. No API path changes an indexed field without this, and no kind of index is left out of the insert or removal step.",
 ["histories","inputs"],"every sequence of record operations in the presence of every kind of index",
 "Tests check queries on a few index types after a few operations; a missed maintenance step only shows when a specific index kind, field and operation meet.",
 ["Db/dbdata.c","Db/dbindex.c"],[("wg_index_del_field/add_field/add_rec/del_rec calls","Db/dbdata.c"),("INDEX_ADD_ROW/INDEX_REMOVE_ROW","Db/dbindex.c")],[],["wg_set_field","wg_set_new_field","wg_create_record","wg_delete_record"])
p("C19","Reference links between records mirror the stored references",
 "Storing a reference to a record in a field adds a back reference from the target to the referring record, and overwriting such a field or deleting the referring record removes it, on every successful path. A record that still has back references is not deleted.",
 ["histories"],"every sequence of stores, overwrites and deletions of record references",
 "Only a few reference graphs are tested; a missed link leads to dangling references much later.",
 ["Db/dbdata.c"],[("backlink list maintenance","Db/dbdata.c wg_set_field, wg_set_new_field, wg_delete_record, remove_backlink_index_entries")],[("RECORD_BACKLINKS_POS","head of the back reference list","Db/dbdata.h")],["wg_set_field","wg_delete_record","wg_get_first_parent"])
p("C20","Shared long values live exactly as long as some field refers to them",
 "Storing a long string-like value in a field increases its reference count, and overwriting the field or deleting the record decreases it; the value is removed from the string table and freed only when the count reaches zero, and its own extra-string reference is released with it. The count of a value that is stored is increased before the value it replaces is released, and an update that fails does not leave the field referring to a released value.",
 ["histories"],"every sequence of stores, overwrites and deletions of long values shared between fields",
 "Needs sharing of a value between several fields and overwriting in a particular order; errors surface as corrupted strings much later.",
 ["Db/dbdata.c","Db/dbhash.c"],[("refcount increments in wg_set_field/wg_set_new_field","Db/dbdata.c"),("free_field_encoffset","Db/dbdata.c"),("wg_remove_from_strhash","Db/dbhash.c")],[("LONGSTR_REFCOUNT_POS","reference count","Db/dbdata.h")],["wg_set_field","wg_delete_record"])
p("C21","Atomic field operations update a field by a single compare-and-swap",
 "Each atomic field operation changes the field only through an atomic compare-and-swap against the value it validated, reports success only if the swap succeeded, and refuses (with its documented codes, without effect) fields or values that need indexes, journal or reference counts to be maintained. The number of retries is bounded.",
 ["schedules"],"every interleaving with other writers of the same field",
 "Tests call the atomic operations from one process.",
 ["Db/dbdata.c"],[("wg_compare_and_swap","Db/dbdata.c wg_update_atomic_field, wg_set_atomic_field, wg_add_int_atomic_field")],[],["wg_update_atomic_field","wg_set_atomic_field","wg_add_int_atomic_field"])
p("C22","Integers keep their full width in every layer",
 "An integer of the database (64 bits) is never narrowed, rounded or reinterpreted on its way between a field and another layer: what is decoded is compared, added, printed (text and CSV), given to Python and hashed for an index with all its bits, so that integers that differ anywhere are printed differently and are different index keys; and what is parsed from text, JSON or Python reaches the encoder at full width. A text whose number is out of range is not stored as another integer, and an unrelated earlier error does not change how a number is parsed.",
 ["inputs"],"every 64-bit integer value, in every layer",
 "Tests use small integers almost everywhere, for which a narrower type gives the same result.",
 ["Db/dbdata.c","Db/dbutil.c","Db/dbhash.c","Db/dbjson.c","Db/dbcompare.c","Python/wgdbmodule.c"],[("wg_decode_int / wg_encode_int and their users","Db/*.c"),("wg_decode_for_hashing","Db/dbhash.c"),("parse_input_type, wg_snprint_value","Db/dbutil.c")],[],["wg_decode_int","wg_encode_int","wg_snprint_value","wg_parse_and_encode","wg_parse_and_encode_param","wg_compare"])
p("C23","Every storable data type is handled by every consumer of values",
 "Every layer that dispatches on the type of a stored value (type query, release, journaling and replay, dump translation, hashing, comparison, text/CSV/JSON output, Python conversion) has a case for every type that can be stored; no type falls through to a case meant for another type or to an error.",
 ["inputs"],"every storable data type, every dispatching layer",
 "Tests use two or three types per layer.",
 ["Db/dbdata.c","Db/dblog.c","Db/dbutil.c","Db/dbcompare.c","Db/dbhash.c","Python/wgdbmodule.c"],[("switches over WG_*TYPE","Db/*.c, Python/wgdbmodule.c")],[],["wg_get_encoded_type","wg_snprint_value","wg_decode_for_hashing"])
p("C24","Query conditions accept exactly the orderings they name",
 "Each of the six comparison conditions accepts a row exactly for the comparison outcomes its name says (equal, not equal, less, greater, less-or-equal, greater-or-equal) in the scan filter of queries and record searches. A query answered from an index starts and ends at the rows its conditions name, visits every row between them once and keeps the conditions the index does not decide as a filter. Conditions outside the six and values that could not be encoded are refused when the query is built.",
 ["inputs"],"all conditions times all comparison outcomes",
 "Tests sample some conditions on some index configurations; inclusive/exclusive mistakes at bounds survive.",
 ["Db/dbquery.c","Db/dbindex.c"],[("check_arglist","Db/dbquery.c"),("check_and_merge_range_bounds / wg_make_query column switch","Db/dbquery.c")],[],["wg_make_query","wg_fetch"])
p("C25","Read-only operations never modify the shared database",
 "Reading, decoding, comparing, scanning, querying, searching, printing, exporting, checking, encoding of query parameters and dumping do not write to the shared memory segment; the only shared state they may change is the lock queue and, for a dump, the state of the journal it supersedes. Freeing a query or a query parameter touches private memory only.",
 ["inputs","schedules"],"every read-only public call with every argument",
 "A stray write by a reader shows only as corruption seen by another process.",
 ["Db/dbdata.c","Db/dbquery.c","Db/dbutil.c","Db/dbcompare.c","Db/dbhash.c"],[("query results kept in private mpool memory","Db/dbquery.c"),("wg_encode_query_param_*","Db/dbquery.c")],[],["wg_get_*","wg_decode_*","wg_make_query","wg_fetch","wg_print_*","wg_dump"])
p("C26","The library never writes to standard output or ends the host process",
 "No database library call other than the printing functions (wg_print_*, wg_mpool_print) writes to the standard output stream, except where the caller passed no file name or callback to an export, import or print call, and for version diagnostics of an attach, import or check that fails; no library call terminates the process (exit, abort, failed assertion). Errors are reported by return values and on the error stream or through the error callback.",
 ["inputs","fault_sequences"],"every library call on every path",
 "Error paths that print or exit are not executed by tests.",
 ["Db/*.c"],[("show_*_error functions printing to stderr","Db/*.c")],[],["all library calls"])
p("C27","JSON is imported only after all of it was accepted; failures are told apart",
 "The import of a JSON file starts only after every piece of the input that was read was given whole to the syntax check, the check was completed at the end of the input and a top-level array or object was seen; a failure before the import (reading, syntax, memory) returns -1 and leaves the database unchanged. Success is returned only when the complete input was parsed and imported. A step of the import that fails (a value cannot be encoded, a record cannot be created, a field cannot be set, memory runs out) stops the import and is reported as -2, and the nesting the check accepts never exceeds the importer's fixed stack.",
 ["inputs","fault_sequences"],"every JSON input, every split of it into read buffers, every failing step",
 "Tests parse a few small valid and invalid documents as strings; read-buffer boundaries, read errors and failing import steps are not executed.",
 ["Db/dbjson.c"],[("two-pass parsing with check_input_callbacks","Db/dbjson.c wg_parse_json_file, wg_check_json"),("run_json_parser and the import callbacks","Db/dbjson.c")],[],["wg_parse_json_document","wg_parse_json_file","wg_check_json"])
p("C28","Fixed-size buffers are never written beyond their end",
 "Text formatting, parsing and tool code never writes more bytes or elements to a fixed-size buffer than it holds, for any length of stored string, input file line, command line or number of arguments.",
 ["inputs"],"every input length",
 "Overlong inputs are not tested and small overruns go unnoticed.",
 ["Db/dbutil.c","Db/dbjson.c","Db/dbdata.c","Db/dblog.c","Db/dbmem.c","Db/dbschema.c","Main/wgdb.c"],[("snprintf with the buffer size, explicit length checks","Db/*.c, Main/wgdb.c")],[],["wg_snprint_value","wg_parse_and_encode","wgdb"])
p("C29","Data owned by another (parent) database is never modified or freed",
 "With child databases, a release of storage, a reference-count or back-reference update caused by overwriting or deleting a field is made only for values that belong to the local segment; a value pointing into an external database is only read. Storing an offset belonging to an unregistered database is rejected.",
 ["histories","configurations"],"every combination of local and external values in a field",
 "The child database test stores a few external strings and records and checks only that they can be read.",
 ["Db/dbdata.c","Db/dbindex.c"],[("offset_owner / is_local_offset tests","Db/dbdata.c")],[],["wg_set_field","wg_delete_record"])
p("C30","Every failing Python call raises; no error is returned as success",
 "Each function of the Python module returns NULL (or its other failure value) exactly when an exception is set: a failure reported by the underlying library call is turned into an exception instead of an ordinary result, and no ordinary result is returned while an exception is pending. Library functions are only given the handle of a database that is attached and objects of the type they were checked for; a call on a detached database raises. No NULL pointer is passed where the Python API expects an object.",
 ["inputs","fault_sequences"],"every call of the module with every argument and every library failure",
 "The Python tests mostly exercise success paths.",
 ["Python/wgdbmodule.c"],[("PyErr_SetString / wgdb_error_setstring before return NULL","Python/wgdbmodule.c"),("attached_database argument converter","Python/wgdbmodule.c")],[],["wgdb module functions"])
p("C31","Python wrappers balance object references",
 "Every Python object a wrapper function creates or receives as a new reference is returned, kept in an object or released exactly once on every path, including error paths; an object that is not owned is neither returned nor released. When what an object's field holds is released the field is emptied, and a destructor releases everything the object can hold.",
 ["inputs","fault_sequences"],"every path of every wrapper function",
 "Reference leaks and over-releases do not show in short functional tests.",
 ["Python/wgdbmodule.c"],[("Py_DECREF / Py_INCREF","Python/wgdbmodule.c"),("free_query and the destructors","Python/wgdbmodule.c")],[],["wgdb module functions"])
p("C32","Ordered-index tree links stay mutually consistent",
 "In an ordered (T-tree) index every change of a child link sets the parent link of that child and every change of a successor link sets the matching predecessor link, on every path of insertion, deletion and rebalancing, so that tree and node chain can be walked in both directions. The first and last node of the chain recorded in the index header follow these changes.",
 ["histories"],"every insertion/deletion history that reaches each rebalancing case",
 "Some rotation cases are reached only by particular deletion orders.",
 ["Db/dbindex.c"],[("rotate_ttree, ttree_add_row, ttree_remove_row","Db/dbindex.c")],[],["wg_create_index","wg_delete_record"])

p("C33","An encoded value has the type and the value it was encoded with",
 "For integers, doubles, characters, dates, times, fixed-point numbers, variables and record references, the value produced by the encoder (for storage or as a query parameter) carries a tag from which the type query returns that type, and the matching decoder returns exactly the number that was encoded (fixed-point numbers: rounded to the documented four decimals), for every argument the encoder accepts; an argument whose bits would not all survive is stored in an object of its own or refused.",
 ["inputs"],"every argument of every encoder",
 "Tests encode a few values per type; losing a sign or a high bit shows only near the limits of a representation.",
 ["Db/dbdata.c","Db/dbdata.h","Db/dbquery.c"],[("encode_*/decode_*/fits_* macros","Db/dbdata.h"),("wg_encode_*/wg_decode_*/wg_get_encoded_type","Db/dbdata.c"),("wg_encode_query_param_*","Db/dbquery.c")],[],["wg_encode_int","wg_decode_int","wg_encode_query_param_int","wg_get_encoded_type"])

# ---------------------------------------------------------------- not decided by static analysis
p("N01","Allocated and free storage partition the segment exactly",
 "At every quiescent moment each area of the segment is a gap-free sequence of used and free objects, every free object is in exactly one free list of its size class and no used object is in any, so two live objects never overlap.",
 ["histories"],"every sequence of allocations and releases",
 "Depends on split/merge histories.",
 ["Db/dballoc.c"],[("wg_alloc_gints / wg_free_object boundary tags","Db/dballoc.c")],[],["wg_check_db"])
p("N02","Queries return exactly the matching records",
 "For every set of conditions, with and without any index, a query returns each matching record exactly once and no other record.",
 ["inputs","histories"],"all data, conditions, index configurations",
 "Samples only.",
 ["Db/dbquery.c","Db/dbindex.c"],[("wg_make_query/wg_fetch","Db/dbquery.c")],[],["wg_fetch"])
p("N03","Journal replay reproduces the logged database",
 "Replaying the journal on the state from which it was started gives a database whose records, values and references equal those of the original.",
 ["histories","crash_points"],"all histories",
 "Samples only.",
 ["Db/dblog.c"],[("recover_journal with offset translation","Db/dblog.c")],[],["wg_replay_log"])
p("N04","Ordered indexes stay sorted and balanced",
 "After any history every T-tree index is sorted, holds each live indexed row exactly once and satisfies the height-balance bound.",
 ["histories"],"all histories","Samples only.",
 ["Db/dbindex.c"],[("ttree_add_row/ttree_remove_row","Db/dbindex.c")],[],["wg_check_db"])
p("N05","Lock waiting is fair and free of deadlock",
 "Queued lock requests are granted in order of arrival and every request is eventually granted or times out when all holders release.",
 ["schedules"],"all schedules","Samples only.",
 ["Db/dblock.c"],[("FIFO queue","Db/dblock.c")],[],["wg_start_write"])
p("N06","Stored strings decode to what was encoded",
 "For every string-like type (strings, URIs, XML literals, blobs, anonymous constants), decoding an encoded value returns the original text, length and language, prefix or type.",
 ["inputs"],"all strings","Samples only.",
 ["Db/dbdata.c","Db/dbhash.c"],[("wg_encode_unistr/wg_encode_uniblob, wg_decode_unistr*","Db/dbdata.c"),("wg_find_strhash_bucket","Db/dbhash.c")],[],["wg_decode_str","wg_decode_blob"])
p("N07","Reasoner results are sound",
 "The reasoner derives the empty clause only if the given clause set is contradictory.",
 ["programs"],"all clause sets","Samples only.",
 ["Reasoner/rgenloop.c","Reasoner/unify.c","Reasoner/derive.c"],[("resolution loop","Reasoner/rgenloop.c")],[],["wr_genloop"])
p("N08","Hash lookups find every stored key",
 "After any history of insertions and removals, every stored long string and every hash-indexed row is reachable from its hash bucket and removed entries are not.",
 ["histories"],"all histories","Samples only.",
 ["Db/dbhash.c"],[("wg_hash_typedstr, wg_idxhash_store/remove/find","Db/dbhash.c")],[],["wg_encode_str","wg_make_query"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
