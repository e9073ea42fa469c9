#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_props.py)."""
import json
C = "src/polodb_core/"
S = "src/polodb/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- storage / transactions
p("C01", "Acknowledged writes are durable",
  "Whenever a committing operation (an auto-committed write, or an explicit transaction's commit) returns success, its effects have been committed to the storage engine as a synchronous, write-ahead-logged commit, so they are still there after a crash at any later point. Closing a database flushes the log before the storage handle is released.",
  ["crash_points", "histories"], "every history of writes and commits, and a crash at any point after an acknowledgement",
  "The tests never crash the process or cut power; an unsynced or unlogged commit is indistinguishable to them.",
  [C+"db/rocksdb_transaction.rs", C+"db/rocksdb_wrapper.rs", C+"db/rocksdb_options.rs", C+"transaction/transaction_inner.rs"],
  [("write options are made synchronous before the storage transaction begins", C+"db/rocksdb_transaction.rs RocksDBTransactionInner::new"),
   ("commit calls the storage commit and checks its error", C+"db/rocksdb_transaction.rs RocksDBTransactionInner::commit"),
   ("close waits for compaction with flush, flushes the WAL, then closes", C+"db/rocksdb_wrapper.rs Drop for RocksDBWrapperInner")],
  ["Result of Collection / Transaction methods", "reopened database"])
p("C02", "Auto-committed operations are all-or-nothing",
  "A write issued on a database collection handle (outside an explicit transaction) commits its whole effect exactly when it returns success; when it returns an error nothing of it is committed. Every storage change the operation makes happens before that commit.",
  ["inputs", "fault_sequences", "histories"], "every write method, every document, query or update, and every point at which it can fail",
  "Tests exercise a handful of failing inputs; the commit/rollback choice must be right on every error exit of every method.",
  [C+"coll/collection.rs", C+"db/db_inner.rs", C+"vm/vm.rs", C+"transaction/transaction_inner.rs"],
  [("commit on Ok, roll back on Err around each operation", C+"coll/collection.rs try_db_op!"),
   ("write programs run with implicit commit disabled", C+"db/db_inner.rs set_auto_commit(false) before VM::new")],
  ["Collection<T> methods", "Database::create_collection"])
p("C03", "Explicit transactions change nothing until committed",
  "Operations made through an explicit transaction are committed only by that transaction's own commit: no read, write, cursor, error, rollback or drop commits them, and dropping or rolling back the transaction discards them. All operations issued through the transaction act inside it.",
  ["histories", "inputs", "schedules"], "every sequence of operations issued in an explicit transaction and every way it can end",
  "The session tests run three short scripts; implicit commits hide in the query machine, which every operation shares.",
  [C+"transaction/transaction.rs", C+"transaction/transaction_inner.rs", C+"coll/txn_collection.rs", C+"db/db.rs", C+"vm/vm.rs"],
  [("explicit transactions start with implicit commit disabled", C+"db/db.rs Database::start_transaction"),
   ("the query machine commits only through the guarded auto_commit", C+"vm/vm.rs DbOp::Close"),
   ("the storage transaction is destroyed, not committed, on drop", C+"db/rocksdb_transaction.rs Drop")],
  ["Transaction, TransactionalCollection"])
p("C04", "Storage failures are reported, never mistaken for success or end of data",
  "Whenever the storage engine reports an error - on open, read, write, delete, commit, rollback or while iterating - the operation that triggered it returns an error to its caller. In particular an iterator that stops because of a storage error is not reported as a completed scan or as a missing key.",
  ["fault_sequences", "inputs"], "every storage call and every fault the storage engine can report from it",
  "No test injects a storage fault.",
  [C+"db/rocksdb_transaction.rs", C+"db/rocksdb_wrapper.rs", C+"db/rocksdb_iterator.rs", C+"cursor.rs", C+"index/index_helper.rs", C+"vm/vm.rs"],
  [("check_err! after every fallible storage call", C+"db/rocksdb_transaction.rs"),
   ("iterator status consulted when the iterator becomes invalid", C+"cursor.rs, "+C+"db/rocksdb_iterator.rs")],
  ["Result values of every public operation"])
p("C05", "Internal errors are propagated, not dropped or turned into panics",
  "An error produced while executing a database operation reaches the caller as an error: it is neither silently discarded nor converted into a panic on the way. This holds for errors from key encoding, document (de)serialisation, planning, execution, index maintenance and transaction control.",
  ["inputs", "fault_sequences"], "every call in the library that can fail with a library, serialisation or storage error",
  "Each dropped error needs its own failing input; tests cover a few happy paths and a few error paths.",
  [C+"db/db_inner.rs", C+"vm/vm.rs", C+"vm/codegen.rs", C+"index/index_helper.rs", C+"db/client_cursor.rs", C+"coll/collection.rs"],
  [("? / try_vm! propagation at every fallible call", C+"(whole crate)")],
  ["Result values of every public operation"])
p("C06", "Storage handles are released once, children before parents",
  "Every storage handle (iterator, transaction, options, database) is released exactly once when its owner goes away; a live cursor or transaction is accounted for, so the transaction or database beneath it is not released while it is in use. No path uses a handle after releasing it.",
  ["histories", "programs", "schedules"], "every order in which cursors, transactions and databases are created and dropped",
  "Use-after-free and leaks at the FFI boundary are not observable by ordinary assertions.",
  [C+"db/rocksdb_wrapper.rs", C+"db/rocksdb_transaction.rs", C+"db/rocksdb_iterator.rs", C+"db/rocksdb_options.rs", C+"vm/vm.rs"],
  [("Drop implementations of the wrappers", C+"db/rocksdb_*.rs"),
   ("live-object counters incremented at creation and checked at release", C+"db/rocksdb_transaction.rs, "+C+"db/rocksdb_wrapper.rs"),
   ("query machine drops its cursor before its transaction", C+"vm/vm.rs Drop for VM")],
  ["process memory; panics on drop"])
p("C07", "Handles of a closed database fail cleanly",
  "Once the database has been closed, every operation on a collection or transactional collection handle obtained from it returns the database-is-closed error before touching storage; none of them succeeds, panics or returns an empty result instead.",
  ["histories", "programs"], "every method of both collection kinds, called after the database was dropped",
  "At most one or two methods are tested after close.",
  [C+"coll/collection.rs", C+"coll/txn_collection.rs", C+"action/find.rs", C+"action/aggregate.rs"],
  [("weak database reference upgraded, failure mapped to DbIsClosed", C+"coll/collection.rs, "+C+"coll/txn_collection.rs, "+C+"action/*.rs")],
  ["CollectionT methods, Find::run, Aggregate::run"])
# ---------------------------------------------------------------- keys, indexes, catalog
p("C08", "Primary keys are unique",
  "An insert stores its document only if no document with the same _id exists in the collection, and otherwise fails with a duplicate-key error leaving the stored document untouched. The existence check takes part in write-conflict detection, so two concurrent transactions cannot both insert the same _id and both commit.",
  ["inputs", "schedules", "histories"], "every insert (single, many, upsert), every _id, and every interleaving of concurrent inserts",
  "Tests insert duplicates sequentially from one thread.",
  [C+"db/db_inner.rs", C+"db/rocksdb_transaction.rs"],
  [("existence check on the exact key before the put", C+"db/db_inner.rs insert_one_with_meta"),
   ("locking read", C+"db/rocksdb_transaction.rs")],
  ["insert_one / insert_many / upsert results"])
p("C09", "Unique indexes are enforced",
  "No write - insert, update, upsert, or creating the index over existing documents - leaves two documents with the same (identically encoded) value in a uniquely indexed field: it fails with a duplicate-key error before the index entry is written. The check covers every unique index of the collection and every write path that adds index entries.",
  ["inputs", "histories"], "every write path, every unique index of the collection and every indexed value",
  "Tests insert one duplicate into one unique index.",
  [C+"index/index_helper.rs", C+"index/index_builder.rs", C+"vm/vm.rs", C+"db/db_inner.rs"],
  [("uniqueness check before an index put", C+"index/index_helper.rs try_execute_with_index_info"),
   ("IndexInfo::is_unique", C+"coll/collection_info.rs")],
  ["insert/update/create_index results"])
p("C10", "Secondary indexes follow every document change",
  "After any successful insert, update or delete the entries of every index of the collection correspond exactly to the stored documents: inserting adds the document's entries, updating removes the entries of the old version and adds those of the new version, deleting removes them. This holds for every layout the planner can choose and for single- and multi-document operations.",
  ["inputs", "histories"], "every write operation, plan and number of indexes",
  "Index tests update or delete a handful of documents with one index.",
  [C+"vm/subprogram.rs", C+"vm/vm.rs", C+"db/db_inner.rs", C+"index/index_helper.rs"],
  [("index entries written on insert", C+"db/db_inner.rs try_insert_index"),
   ("DeleteIndex before and InsertIndex after the update/delete operation in generated programs", C+"vm/subprogram.rs compile_update/compile_delete/compile_delete_all")],
  ["indexed finds after writes"])
p("C11", "Creating and dropping indexes and collections leaves nothing missing or behind",
  "Creating an index also indexes every document already stored and records it in the catalog; dropping an index removes all its entries and its catalog record. Dropping a collection removes its documents, its index entries and its catalog record.",
  ["histories", "inputs"], "every history of index/collection creation and removal over any stored data",
  "Tests drop small collections and look only at the catalog.",
  [C+"db/db_inner.rs", C+"index/index_builder.rs", C+"vm/subprogram.rs"],
  [("index backfill / purge", C+"db/db_inner.rs create_single_index, internal_drop_index"),
   ("collection purge then catalog delete", C+"db/db_inner.rs drop_collection_internal")],
  ["create_index, drop_index, drop"])
p("C12", "Names are validated so namespaces stay disjoint",
  "Every operation that names a collection rejects illegal names (those containing a separator, control or reserved character) with an error before any storage access, and custom index names are checked the same way before they are used in a key. Documents, index entries and catalog records of different collections therefore never share a key prefix.",
  ["inputs"], "every public operation taking a collection or index name, and every name",
  "Tests try three names on one helper.",
  [C+"db/db_inner.rs", C+"utils/bson.rs"],
  [("validate_col_name at the head of each operation", C+"db/db_inner.rs"), ("validate_index_name", C+"db/db_inner.rs make_index_name")],
  ["errors of public operations"])
p("C13", "No update operator can change a document's _id",
  "Every update operator rejects an update that names _id as a field to change, remove, rename or rename onto, with an error and without writing anything.",
  ["inputs"], "every update operator and every update document",
  "Only $inc on _id is tested.",
  [C+"vm/update_operators/"],
  [("validate_key in each operator's compile", C+"vm/update_operators/*.rs")],
  ["update_one / update_many errors"])
p("C14", "Every stored document has an _id and is stored under it",
  "A document inserted without an _id (or with a null one) gets a fresh one; the key it is stored under, the key its index entries point to and the inserted id reported to the caller are all that document's _id.",
  ["inputs"], "every inserted document",
  "Tests look only at the shape of returned ids.",
  [C+"db/db_inner.rs"],
  [("fix_doc, stacked key from the _id", C+"db/db_inner.rs insert_one_with_meta")],
  ["InsertOneResult / InsertManyResult, stored documents"])
p("C15", "Key encoding and decoding agree",
  "For every value type that may be part of a key, the decoder recognises exactly the type tag the encoder writes and consumes exactly the bytes the encoder produced, so composite keys can always be split back; unsupported types are rejected by the encoder with an error.",
  ["inputs"], "every key component type",
  "A few types are round-tripped; the two tables are written independently.",
  [C+"utils/bson.rs"],
  [("stacked_key_bytes / split_stacked_keys tables", C+"utils/bson.rs")],
  ["index lookups, _id lookups"])
# ---------------------------------------------------------------- compiler / VM
p("C16", "Generated programs are decoded the way they were encoded",
  "For every instruction, the compiler that emits it, the machine that executes it and the disassembler that prints it agree on the instruction's length and operands, every instruction is handled, and jump operands are patched with the position of the label they name.",
  ["inputs", "programs"], "every instruction of every program that can be generated",
  "Printed-program tests cover a few programs and do not compare encoder, machine and printer for all instructions.",
  [C+"vm/codegen.rs", C+"vm/vm.rs", C+"vm/subprogram.rs", C+"vm/op.rs"],
  [("emit helpers", C+"vm/codegen.rs"), ("dispatch loop", C+"vm/vm.rs VM::execute"), ("Display", C+"vm/subprogram.rs")],
  ["query results; SubProgram display"])
p("C17", "Comparison operators mean what they say",
  "Each query comparison operator ($eq, $ne, $gt, $gte, $lt, $lte, $in, $nin, $all, $size, $regex, $not) selects exactly the documents, among those that have the field, for which its comparison holds: each operator tests the comparison it names, in the right direction, negated exactly when the operator (or an enclosing $not) says so, alone or beside other conditions. Numbers of different types compare by value; values of different types never compare equal.",
  ["inputs"], "every operator, with and without $not, for every outcome of the comparison",
  "Tests cover some operators with some values; $ne had no test at all.",
  [C+"vm/codegen.rs", C+"vm/vm.rs", C+"vm/query_matcher.rs"],
  [("operator string to instruction table", C+"vm/codegen.rs emit_query_tuple_document_kv"), ("instruction semantics", C+"vm/vm.rs, "+C+"vm/query_matcher.rs generic_cmp")],
  ["find results"])
p("C18", "Conditions of a query combine as documented",
  "A document matches a query exactly when every top-level condition holds, $and holds when every listed sub-query holds, and $or when at least one does - whatever the order of the conditions and whatever they are combined with.",
  ["inputs"], "every combination and order of conditions",
  "Tests use $and and $or alone.",
  [C+"vm/codegen.rs"],
  [("emit_standard_query_doc, emit_logic_and, emit_logic_or", C+"vm/codegen.rs")],
  ["find results"])
p("C19", "The access path does not change a query's meaning",
  "Whether a query is answered by primary key, through a secondary index or by a full scan, every remaining condition of the query is applied to each candidate with the same meaning, a candidate that fails does not end the search, and the operation's finishing work (sort, aggregation output, close) is still done.",
  ["inputs", "configurations"], "every query and every set of indexes",
  "Index and primary-key tests use a single condition and no pipeline.",
  [C+"vm/codegen.rs", C+"vm/subprogram.rs"],
  [("emit_query_layout and its primary-key and index variants", C+"vm/codegen.rs")],
  ["find / aggregate results with and without indexes"])
p("C20", "Reads never write",
  "Finding, counting, aggregating, listing collections and iterating cursors never modify stored data or the catalog; a read, update or delete that addresses a collection that does not exist does not create it.",
  ["inputs", "histories"], "every read operation and every update/delete on a missing collection",
  "Tests do not inspect the catalog after reads.",
  [C+"db/db_inner.rs", C+"vm/subprogram.rs", C+"coll/collection.rs"],
  [("read programs contain no writing instruction", C+"vm/subprogram.rs"), ("create_if_not_exist is false on read, update and delete paths", C+"db/db_inner.rs")],
  ["list_collection_names, stored data"])
p("C21", "A finished or failed cursor stays finished",
  "Once a cursor has reported the end of its results or an error, every later advance reports the end (or the halted error) without re-executing any part of the operation; iterating a cursor whose execution fails yields the error and terminates.",
  ["fault_sequences", "histories"], "every cursor, every error it can meet and any number of further advances",
  "No test advances a cursor after an error.",
  [C+"vm/vm.rs", C+"db/client_cursor.rs"],
  [("VmState::Halt set on every error exit and on end", C+"vm/vm.rs execute, try_vm!"), ("state check at entry", C+"vm/vm.rs execute, "+C+"db/client_cursor.rs advance")],
  ["ClientCursor::advance, Iterator::next"])
p("C22", "Sort order is determined by the sort specification",
  "Sorting compares documents by the listed keys in the listed order and direction, gives the same order on every run, treats equal keys as equal, and never panics whatever the types of the values being compared.",
  ["inputs"], "every sort specification and every mix of values",
  "Tests sort homogeneous integers by one key.",
  [C+"vm/vm_sort.rs", C+"utils/bson.rs"],
  [("ordered list of keys, comparator composed with direction", C+"vm/vm_sort.rs")],
  ["find().sort(), $sort"])
p("C23", "Aggregation stages are fed each document once and the end once",
  "Every stage of a pipeline processes each document produced by the stage before it exactly once and then the end of input exactly once: per-document stages never turn the end of input into an output document, and accumulating stages emit their results only at the end of their input and all of them.",
  ["inputs"], "every pipeline, in every order and combination of stages",
  "Pipelines of one or two stages over small inputs are tested.",
  [C+"vm/codegen.rs", C+"vm/vm_external_func.rs", C+"vm/vm_count.rs", C+"vm/vm_skip.rs", C+"vm/vm_limit.rs", C+"vm/vm_group.rs", C+"vm/vm_sort.rs", C+"vm/vm_add_fields.rs", C+"vm/vm_unset.rs"],
  [("VmExternalFunc::call / is_completed of each stage", C+"vm/vm_*.rs"), ("stage plumbing", C+"vm/codegen.rs emit_external_func, emit_aggregation_before_close")],
  ["aggregate results"])
p("C24", "Unknown or malformed queries, updates and pipelines are rejected",
  "A query operator, update operator, pipeline stage or group accumulator that the database does not implement, or an implemented one given an operand of the wrong type, makes the operation fail with an error; it is never ignored and never panics, and every implemented operator is reachable by its documented name.",
  ["inputs"], "every query, update and pipeline document",
  "Tests try one unknown name of some kinds.",
  [C+"vm/codegen.rs", C+"vm/update_operators/", C+"vm/operators/op_registry.rs", C+"vm/vm_group.rs"],
  [("catch-all arms that return an error", C+"vm/codegen.rs, "+C+"vm/operators/op_registry.rs")],
  ["errors of find/update/aggregate"])
p("C25", "Arithmetic on stored numbers cannot overflow silently or crash",
  "Arithmetic performed on document values by update operators and aggregation operators ($inc, $mul, $sum, $abs, ...) neither panics nor silently wraps around when the result does not fit: it promotes or reports an error.",
  ["inputs"], "every pair of stored value and operand",
  "Tests use small integers.",
  [C+"vm/update_operators/inc_operator.rs", C+"vm/update_operators/mul_operator.rs", C+"vm/operators/", C+"vm/vm.rs"],
  [("checked arithmetic", C+"vm/update_operators/*.rs, "+C+"vm/operators/*.rs")],
  ["update and aggregate results"])
p("C26", "An update writes its result back exactly when something changed",
  "When an update names several operators, the document is written back - and counted as modified - whenever any of them changed it, whatever the order of the operators, and it is neither rewritten nor counted when none did; each operator reports a change whenever it changed the document, and $max and $min report none when they left it as it was.",
  ["inputs"], "every combination and order of update operators",
  "Every update test uses one operator.",
  [C+"vm/vm.rs", C+"vm/codegen.rs", C+"vm/update_operators/"],
  [("change flag reset before, accumulated by, and tested after the operators", C+"vm/codegen.rs emit_update_operation, "+C+"vm/vm.rs CallUpdateOperator/UpdateCurrent")],
  ["UpdateResult, stored documents"])
p("C27", "Single-document operations touch at most one document; upsert only on no match",
  "update_one and delete_one change at most one document, update_many and delete_many all matching ones, and an upsert inserts a document only if the option was given and no document matched, inserting exactly one.",
  ["inputs", "histories"], "every query, plan and number of matching documents",
  "Tests check counts on a few small collections.",
  [C+"db/db_inner.rs", C+"vm/subprogram.rs", C+"vm/codegen.rs"],
  [("is_many decides whether the layout continues after a result", C+"vm/codegen.rs emit_query_layout"), ("matched_count == 0 guard", C+"db/db_inner.rs internal_update")],
  ["UpdateResult / DeleteResult"])
p("C28", "Reported counts come from what was done",
  "matched, modified, deleted and document counts and the map of inserted ids reported to the caller are accumulated once per document actually matched, rewritten, deleted, read or inserted, and nowhere else.",
  ["inputs", "histories"], "every operation that reports a count",
  "Tests compare counts for a few inputs.",
  [C+"vm/vm.rs", C+"db/db_inner.rs", C+"vm/codegen.rs"],
  [("r2/r4 counters", C+"vm/vm.rs"), ("result construction", C+"db/db_inner.rs")],
  ["UpdateResult, DeleteResult, count_documents, InsertManyResult"])
p("C29", "No operation can deadlock on the library's own locks",
  "No operation acquires a lock it (or one of its callers) already holds, locks are always acquired in one global order, and no lock is held across a call back into user code or across an asynchronous wait.",
  ["schedules"], "every interleaving of operations on shared handles and server connections",
  "Deadlocks need particular interleavings; the tests are single-threaded per database.",
  [C+"db/rocksdb_transaction.rs", C+"db/rocksdb_wrapper.rs", C+"metrics/metrics.rs", S+"app_context.rs", S+"session_context.rs", S+"handlers/"],
  [("short critical sections around one storage call or one map access", C+"db/rocksdb_transaction.rs, "+S+"app_context.rs")],
  ["progress of every operation"])
p("C30", "A collection behaves the same inside and outside a transaction",
  "Every collection operation available on a database collection performs the same database operation with the same arguments when issued through an explicit transaction; the two differ only in who commits.",
  ["programs", "inputs"], "every method of the collection interface",
  "The transactional twin of most methods is untested.",
  [C+"coll/collection.rs", C+"coll/txn_collection.rs", C+"action/find.rs", C+"action/aggregate.rs"],
  [("two implementations of CollectionT", C+"coll/collection.rs, "+C+"coll/txn_collection.rs")],
  ["CollectionT methods"])
p("C31", "Update operators do what they say",
  "$set stores its operand in the field it names and $unset removes that field; $inc adds its operand to a stored number and $mul multiplies it; $max and $min replace the value exactly when the operand is greater, respectively smaller; $rename moves the value to the new name and does nothing when the field is missing; $push appends to the array (creating it when the field is missing); $pop removes the last element of an array for 1 and the first for -1. Every named field is processed and no other field changes.",
  ["inputs"], "every update operator, every operand, every stored document",
  "Tests apply most operators to one document each; $pop and $rename are barely tested.",
  [C+"vm/update_operators/", C+"vm/codegen.rs"],
  [("one UpdateOperator::update per operator", C+"vm/update_operators/*.rs"), ("the operator's name is mapped to its type", C+"vm/codegen.rs emit_update_operation_kv")],
  ["stored documents after update_one / update_many"])
# ---------------------------------------------------------------- server
p("S01", "Wire messages are bounded before they are believed",
  "The server allocates and reads for an incoming message only after checking its declared length against the maximum and minimum, arithmetic on lengths taken from the wire is checked, and a malformed message yields an error on that connection, not a panic.",
  ["inputs"], "every byte sequence received on a connection",
  "Tests use a well-behaved driver.",
  [S+"wire/message.rs", S+"wire/header.rs", S+"wire/util.rs", S+"checked.rs", S+"bson_util.rs"],
  [("length check before the body buffer is allocated; Checked arithmetic", S+"wire/message.rs")],
  ["server process memory and liveness"])
p("S02", "Server commands in a session run in that session's transaction",
  "A data command (find, aggregate, insert, update, delete) that arrives in a session with a transaction is executed inside that transaction; without a session it is executed directly. No data command ignores the session.",
  ["histories", "inputs"], "every data command, inside and outside a session",
  "Only insert-in-transaction is tested.",
  [S+"handlers/"],
  [("match on ctx.session in each handler", S+"handlers/*.rs")],
  ["effects visible before commit / after abort"])
p("S03", "Commit and abort end the session's transaction",
  "A successful commitTransaction has committed, and a successful abortTransaction has rolled back, the session's own transaction; either way the transaction is no longer available to later commands of that session, and a failure to commit or roll back is reported as a failure.",
  ["histories", "fault_sequences"], "every sequence of commands in a session",
  "Tests run one commit and one abort.",
  [S+"handlers/commit_transaction.rs", S+"handlers/abort_transaction.rs", S+"session_context.rs"],
  [("commit/rollback then clear_transaction", S+"handlers/commit_transaction.rs, "+S+"handlers/abort_transaction.rs")],
  ["replies; effects of later commands"])
p("S04", "Server cursors are never confused or leaked",
  "A cursor id handed to a client identifies that client's cursor until it is killed: a new cursor never takes the id of a live one, getMore serves the cursor it names or fails, and killCursors removes the cursors it names.",
  ["histories", "schedules"], "every sequence of find, aggregate, getMore and killCursors from any number of clients",
  "Tests use one cursor at a time.",
  [S+"app_context.rs", S+"handlers/find_handler.rs", S+"handlers/get_more_handler.rs", S+"handlers/kill_cursors_handler.rs"],
  [("cursor table", S+"app_context.rs save_cursor/get_cursor/remove_cursor")],
  ["getMore batches"])
p("S05", "Every request gets exactly one reply, addressed to it",
  "For every request whose message was read completely (flag bits zero, declared length its actual length) the server writes exactly one reply, addressed to that request's id; a command that fails - including one whose session information is malformed - gets an error reply, and one that is not recognised gets a not-found reply.",
  ["inputs", "histories"], "every request, valid or not",
  "Tests send valid commands only.",
  [S+"main.rs", S+"reply.rs", S+"handlers/"],
  [("handle_message", S+"main.rs"), ("Reply::new(request_id, ..)", S+"handlers/*.rs")],
  ["bytes written to the client"])
p("S06", "Every supported command is routed to its own handler",
  "Every command handler the server implements is registered, recognises exactly its own command name, and the names are pairwise different, so each command is served by the handler written for it.",
  ["inputs"], "every command document",
  "Tests cover some commands.",
  [S+"handlers/mod.rs", S+"handlers/", S+"app_context.rs"],
  [("make_handlers registry; Handler::test", S+"handlers/mod.rs")],
  ["replies"])
# ---------------------------------------------------------------- python
p("Y01", "Python operations report failures as exceptions",
  "Every method of the Python binding surfaces a failing database or conversion operation as a Python exception raised by that call; it neither swallows the error nor panics.",
  ["inputs", "fault_sequences"], "every method of the Python binding and every failure",
  "The Python tests exercise successful calls.",
  ["py-polodb/src/lib.rs", "py-polodb/src/py_database.rs", "py-polodb/src/helper_type_translator.rs"],
  [("map_err to a Python exception", "py-polodb/src/")],
  ["Python exceptions"])
p("Y02", "Python and database values convert both ways",
  "Python str, bool, int, float, None, bytes, datetime, list and dict convert to their database counterpart, and converting that back yields the same Python type; a Python value with no counterpart, an int out of range, and a database value the binding has no translation for raise errors instead of being dropped or altered.",
  ["inputs"], "every value type",
  "The tests convert a few scalars.",
  ["py-polodb/src/helper_type_translator.rs"],
  [("the two conversion tables", "py-polodb/src/helper_type_translator.rs")],
  ["documents read back in Python"])
# ---------------------------------------------------------------- declared, not claimed
p("N01", "Concurrent transactions are isolated",
  "The outcome of concurrent committed transactions equals that of some serial order; no update made between a transaction's read and its write is lost.",
  ["schedules", "histories"], "every interleaving of concurrent transactions",
  "Tests are single-threaded.",
  [C+"db/rocksdb_transaction.rs", C+"cursor.rs"], [("storage-engine pessimistic locks on writes", C+"db/rocksdb_transaction.rs")], ["transaction results"])
p("N02", "Crash recovery restores exactly the committed state",
  "After a crash at any point, reopening the database yields exactly the effects of the transactions whose commit was acknowledged (plus possibly ones in flight), and no partial transaction.",
  ["crash_points", "histories"], "every crash point",
  "Tests do not crash.",
  [C+"db/rocksdb_wrapper.rs"], [("RocksDB write-ahead log", "librocksdb")], ["reopened database"])
p("N03", "Key order equals value order",
  "Encoded keys of comparable values sort in the order of the values, so primary-key and index scans return documents in key order.",
  ["inputs"], "every pair of values",
  "A few integers are compared.",
  [C+"utils/bson.rs"], [("stacked_key_bytes", C+"utils/bson.rs")], ["scan order"])
p("N04", "Value comparison is a total order",
  "Comparison of any two values used for sorting and for $max/$min/range queries is reflexive, antisymmetric and transitive across value types.",
  ["inputs"], "every triple of values",
  "Homogeneous integers are compared.",
  [C+"utils/bson.rs"], [("value_cmp", C+"utils/bson.rs")], ["sort results"])

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for r in P:
            assert len(r["title"]) <= 80, r["title"]
            f.write(json.dumps(r) + "\n")
    print(len(P), "properties")
