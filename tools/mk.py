#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "src/polodb_core/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook),
                  _t=technique, _n=note, _l=level))

TRUST = "Sampled, not exhaustive: it shows the absence of violations in the generated cases only. It trusts the reference model (harness/src/model.rs), RocksDB, the bson crate and the file system."

p("C01", "A history of operations leaves exactly the documents it says",
  "After any sequence of inserts, updates, deletes, finds, counts, aggregations, collection drops and reopens of the database, every collection contains exactly the documents which the successful operations left there, each with the content they gave it, and every result reports what the operation did. Operations on one collection never affect another. Closing and reopening the database changes nothing.",
  ["histories", "inputs"], "all sequences of operations on several collections of one database, with reopens in between, and all documents of the supported types",
  "The tests run short fixed sequences on a fresh database and rarely reopen it; they cannot cover the combinations of operations, document types and reopens.",
  [CORE + "db/db_inner.rs", CORE + "coll/collection.rs", CORE + "vm/vm.rs", CORE + "vm/codegen.rs", CORE + "cursor.rs"],
  [("every operation compiles to a program of the virtual machine over a prefix of the key space", CORE + "vm/codegen.rs"), ("keys are encoded as collection + primary key", CORE + "utils/bson.rs")],
  ["results of the collection methods", "find({}) and count_documents after every step and after reopening"],
  "model-based stateful testing against a reference model", TRUST)

p("C03", "A transaction is visible to others only after its commit, and then whole",
  "While a transaction is open it sees its own writes and nobody else does. After commit all of its writes are there and stay there after reopening the database; after rollback, or when it is dropped without commit, none of them is, whichever mixture of inserts, updates, deletes, new collections and indexes it made.",
  ["histories", "schedules"], "all interleavings, operation by operation, of several open transactions and of operations outside of any transaction, on documents which they do not contend for",
  "The tests open one transaction at a time with one or two operations; visibility and rollback need many interleavings and kinds of writes.",
  [CORE + "transaction/transaction.rs", CORE + "transaction/transaction_inner.rs", CORE + "db/rocksdb_transaction.rs", CORE + "coll/txn_collection.rs"],
  [("RocksDB transaction per session; commit and rollback", CORE + "db/rocksdb_transaction.rs")],
  ["reads inside each transaction and outside after every step", "state after reopening"],
  "model-based stateful testing of generated interleavings", TRUST + " Interleavings are of whole operations; threads are the subject of C17.")

p("C04", "An operation which fails changes nothing",
  "When an insert, update, upsert, delete, index creation or collection creation outside of an explicit transaction returns an error, the database is as it was before: no document, index entry, index or collection is added, changed or removed, also when the failure comes after the operation has already handled other documents. The database stays fully usable afterwards.",
  ["histories", "inputs"], "all histories and all operations which fail somewhere: duplicate keys, invalid ids and index values, updates which some documents reject, invalid updates, at any position of a batch",
  "The tests check that an error is returned, seldom what is left behind, and never in the middle of a batch with indexes.",
  [CORE + "db/db_inner.rs", CORE + "index/index_helper.rs", CORE + "vm/vm.rs", CORE + "transaction/transaction_inner.rs"],
  [("every operation runs in a RocksDB transaction which is committed at its end only", CORE + "db/db_inner.rs")],
  ["documents, counts, lookups through every index and collection names after each failure and after reopening"],
  "model-based stateful testing with histories rich in failures", TRUST)

p("C05", "Every document has a unique, immutable primary key",
  "Every stored document has an _id which no other document of its collection has; a document inserted without one gets a fresh ObjectId. Inserting an _id which is already there fails with a duplicate key error, and no update changes, removes or adds an _id. A document can be found, updated and deleted by its _id, whatever valid type it has.",
  ["histories", "inputs"], "all histories of inserts, updates and deletes and all ids of the types which can be keys",
  "The tests use a few string and ObjectId keys and no updates which try to change the key.",
  [CORE + "db/db_inner.rs", CORE + "vm/update_operators/", CORE + "utils/bson.rs", CORE + "vm/codegen.rs"],
  [("keys are put after a check for an existing one under a lock", CORE + "db/db_inner.rs"), ("update operators reject _id", CORE + "vm/update_operators/")],
  ["insert results", "find and delete by _id", "all ids of a collection"],
  "model-based stateful testing", TRUST)

p("C06", "A unique index never lets two documents have the same value",
  "While a unique index exists, no two documents of the collection have the same value (same type and content) of the indexed field; an insert, batch insert, update, upsert or index creation which would break this fails with a duplicate key error and changes nothing. Values become free again when their document is deleted or changed, and documents without the field are not restricted.",
  ["histories", "inputs"], "all histories on collections with unique indexes on top-level and nested fields, including reopening, dropping and recreating the index",
  "The tests insert one duplicate; they do not cover updates, batches, deletions, index creation on existing data or reopening.",
  [CORE + "index/index_helper.rs", CORE + "index/index_builder.rs", CORE + "vm/vm.rs"],
  [("index entries are maintained with each document", CORE + "index/index_helper.rs"), ("the unique check looks for an entry with the value as prefix", CORE + "index/index_helper.rs")],
  ["errors of the operations", "values of the indexed field of all documents", "lookups by the field"],
  "model-based stateful testing", TRUST)

p("C07", "Indexes never change what a query returns",
  "A query returns the same documents whether or not any of its fields is indexed, at any point of the life of the index: created on an empty or filled collection, after inserts, updates and deletes, after reopening, and after being dropped. Updates, deletes and aggregations are equally unaffected by indexes.",
  ["histories", "inputs"], "all histories on a collection with changing indexes and a twin with the same documents and none, and all queries, for indexed values which the index can hold",
  "The tests look up one value by one index; they do not compare queries with and without the index after histories of changes.",
  [CORE + "vm/codegen.rs", CORE + "index/index_helper.rs", CORE + "index/index_builder.rs", CORE + "vm/vm.rs"],
  [("equality on an indexed field at the top level of a query becomes an index lookup", CORE + "vm/codegen.rs"), ("index entries are maintained with each document", CORE + "index/index_helper.rs")],
  ["results of find, aggregate, update and delete on both collections"],
  "differential testing of an indexed collection against its index-free twin and the model", TRUST)

p("C08", "Comparison operators select exactly the documents which satisfy them",
  "A condition on a field by a literal value, $eq, $ne, $gt, $gte, $lt or $lte selects exactly the documents whose field, possibly in a nested document, compares so with the operand: numbers by value across number types, values of other types within their type, and different types in a fixed order. Documents without the field are not selected by any of them, so $eq and $ne of one operand divide the documents which have the field, and likewise $gt, $eq and $lt.",
  ["inputs"], "all scalar operands, all documents, nested paths and combinations of operators on one field",
  "The tests compare a few integers and strings; the order across types and boundaries, and the relations of the operators, need generated values.",
  [CORE + "vm/codegen.rs", CORE + "vm/vm.rs", CORE + "utils/bson.rs"],
  [("value comparison", CORE + "utils/bson.rs: value_cmp"), ("comparison opcodes and jumps", CORE + "vm/vm.rs")],
  ["documents returned by find"],
  "generated queries against a reference evaluator, and metamorphic relations between operators", TRUST)

p("C09", "Conjunction, $and, $or and $not follow boolean logic, however nested",
  "A query of several conditions selects the documents which satisfy all of them; $and selects the intersection and $or the union of what its operands select, at any nesting and beside other conditions, and independent of their order. $not of an operator document selects the documents which have the field and do not satisfy it.",
  ["inputs"], "all nestings of conditions, $and, $or and $not up to depth 3 over generated documents",
  "The tests have a few flat $and and $or queries; nesting, mixing with other conditions and negation of several operators are not covered.",
  [CORE + "vm/codegen.rs", CORE + "vm/label.rs", CORE + "vm/vm.rs"],
  [("jumps to result and not-found labels; negation of code generation", CORE + "vm/codegen.rs")],
  ["documents returned by find"],
  "generated nested queries against a reference evaluator, and metamorphic relations (union, intersection, complement)", TRUST)

p("C10", "$in, $nin, $all, $size and $regex select exactly what they describe",
  "$in selects the documents whose field equals one of the candidates or is an array with an element which does, or matches a candidate which is a regular expression; $nin selects exactly the others, and $all the documents which satisfy every candidate. A missing field counts as null for these three. $size selects arrays of the given length and $regex strings (and arrays with a string) which the expression with its options matches.",
  ["inputs"], "all candidate lists and field values of the supported types, missing fields, nested paths and regular expressions with options",
  "The tests use lists of integers and one or two expressions; other types, missing fields, nested arrays and number types are not covered.",
  [CORE + "vm/vm.rs", CORE + "vm/codegen.rs", CORE + "utils/bson.rs"],
  [("in, all, size and regex opcodes", CORE + "vm/vm.rs")],
  ["documents returned by find"],
  "generated conditions against a reference evaluator, and metamorphic relations ($in and $nin complement, $in as union, $all as intersection)", TRUST)

p("C11", "Update operators change exactly what they describe, and the counts are right",
  "update_one changes one and update_many all of the documents which match, each exactly as $set, $unset, $inc, $mul, $min, $max, $push, $pop and $rename say, in the order in which they are given, and nothing else. matched_count and modified_count report how many matched and how many an operator changed; an operator which cannot be applied to a value, overflows or is malformed is an error and nothing changes.",
  ["inputs", "histories"], "all update documents of one or more operators and all documents they apply to, in sequence",
  "The tests apply one operator to one simple document; combinations, edge values, mismatched types and counts are not covered.",
  [CORE + "vm/update_operators/", CORE + "vm/codegen.rs", CORE + "vm/vm.rs", CORE + "db/db_inner.rs"],
  [("update operators", CORE + "vm/update_operators/"), ("the document is stored when an operator changed it", CORE + "vm/vm.rs")],
  ["documents after each update", "matched_count and modified_count", "errors"],
  "generated update sequences against a reference model", TRUST)

p("C12", "An upsert inserts exactly when nothing matches",
  "An update with upsert updates the documents which match as it would without the option; when none matches and it has a $set, it inserts exactly one document made of the fields of the query and those of $set, with a generated _id if neither has one. Constraints hold for the inserted document as for any other: a duplicate key or invalid field is an error and nothing changes; without upsert nothing is ever inserted.",
  ["histories", "inputs"], "all sequences of updates with and without upsert, with ids, unique indexes and missing collections",
  "The tests upsert once into an empty collection; existing matches, unique indexes, ids and failures are not covered.",
  [CORE + "db/db_inner.rs", CORE + "coll/collection.rs"],
  [("the update falls back to an insert when nothing matched", CORE + "db/db_inner.rs")],
  ["documents, indexes and collections after each upsert", "result counts"],
  "generated upsert sequences against a reference model", TRUST)

p("C13", "Sort, skip and limit return the right documents in the right order",
  "A find with sort returns the matching documents ordered by the given keys in the given directions, keeping the order of equal ones; skip and limit return the corresponding part of that sequence, so consecutive pages put together are the whole. A cursor returns each document once and then stays at its end, and an invalid sort order is an error.",
  ["inputs"], "all combinations of filters, sort keys and directions, skips and limits over values of mixed types and missing fields, with and without an index",
  "The tests sort a handful of documents by one key; several keys, ties, mixed types, missing keys and large numbers are not covered.",
  [CORE + "action/find.rs", CORE + "vm/vm_sort.rs", CORE + "vm/vm_skip.rs", CORE + "vm/vm_limit.rs", CORE + "db/client_cursor.rs"],
  [("stages of external functions after the filter", CORE + "vm/codegen.rs"), ("stable sort by value comparison", CORE + "vm/vm_sort.rs")],
  ["the list of documents returned", "cursor steps"],
  "generated finds against a reference model, and metamorphic relations (pages, reverse order)", TRUST)

p("C14", "Aggregation pipelines compute what their stages say, in order",
  "A pipeline of $match followed by any sequence of $skip, $limit, $sort, $count, $group with $sum of 1 and a constant key, $unset and $addFields (constants, fields and $abs) returns exactly the documents which applying the stages one after the other to the matching documents gives, in that order, including when a stage receives or returns nothing.",
  ["inputs"], "all sequences of up to 6 such stages after an optional $match, over generated documents, with and without an index or primary key in $match",
  "The tests run single stages on fixed data; combinations of stages and empty inputs are not covered.",
  [CORE + "vm/codegen.rs", CORE + "vm/vm_count.rs", CORE + "vm/vm_group.rs", CORE + "vm/vm_sort.rs", CORE + "vm/vm_unset.rs", CORE + "vm/vm_add_fields.rs", CORE + "vm/operators/"],
  [("each stage is an external function in a chain, with a completion pass", CORE + "vm/codegen.rs")],
  ["documents returned by aggregate"],
  "generated pipelines against a reference interpreter", TRUST)

p("C22", "A query means the same in every operation",
  "find, find_one, aggregate with $match, update_one, update_many, delete_one and delete_many with the same query on the same data agree on which documents match: the many-versions affect all of them, the one-versions exactly one of them if there is any, and the counts reported are those numbers. The same holds inside a transaction.",
  ["inputs"], "all queries of the supported language, with and without an index and an _id condition",
  "The tests use simple queries with each operation on its own; a difference between two ways of executing a query needs the same rich query in both.",
  [CORE + "vm/codegen.rs", CORE + "db/db_inner.rs", CORE + "coll/collection.rs", CORE + "coll/txn_collection.rs"],
  [("one code generator for queries, updates and deletes", CORE + "vm/codegen.rs")],
  ["results and effects of each operation"],
  "differential testing of operations on generated queries, with a reference evaluator", TRUST)

p("C15", "What is stored is what comes back",
  "A document comes back from find, find_one and aggregate, in the same session and after reopening, with exactly the fields, order, types and values with which it was stored, whatever BSON types, sizes and nesting it has; a value of a Rust type stored through a typed collection comes back equal. Updating one field leaves every other one as it is.",
  ["inputs"], "all documents of all BSON value types, deep, wide and large ones, and Rust records with enums, options, maps, tuples and nested structures",
  "The tests store a few small documents with strings and integers.",
  [CORE + "utils/bson.rs", CORE + "coll/collection.rs", CORE + "db/client_cursor.rs", CORE + "db/db_inner.rs", CORE + "vm/vm.rs"],
  [("documents are stored as BSON bytes under their key", CORE + "db/db_inner.rs"), ("typed results are deserialized from the document", CORE + "db/client_cursor.rs")],
  ["bytes of the documents returned", "typed values returned"],
  "round-trip testing of generated documents and typed records", TRUST)

p("C16", "Collections are separate and named exactly as they were created",
  "The names listed are exactly those of the collections which exist: created explicitly, by a first insert, upsert or index, and not dropped. Collections never share documents or indexes, whatever their names look like; dropping one removes all of its documents and indexes and nothing else, and one created again under that name is empty. Creating one that exists is an error, and illegal names create nothing.",
  ["histories", "inputs"], "all histories of creating, filling, indexing, dropping and reopening with generated names: prefixes of each other, control and non-ASCII characters, spaces, long names and illegal ones",
  "The tests create and drop one or two collections with plain names.",
  [CORE + "db/db_inner.rs", CORE + "utils/bson.rs", CORE + "coll/collection_info.rs"],
  [("documents are stored under the collection name as key prefix", CORE + "utils/bson.rs: stacked_key"), ("collection specifications under TABLE_META", CORE + "db/db_inner.rs")],
  ["list_collection_names after every step", "documents and lookups of every collection"],
  "model-based stateful testing over generated names", TRUST)

p("C18", "Any request is answered or refused cleanly",
  "Whatever documents are given as query, update, pipeline, sort order, index keys or document to insert, well formed or not, every operation returns a result or an error, in finite time: it never panics, and a cursor comes to its end. A refused operation, and every read, leaves the database exactly as it was, and the database and every document in it remain usable, now and after reopening.",
  ["inputs", "histories"], "all request documents: grammar-generated ones, mutations of valid ones and junk with operators in wrong places, extreme numbers, broken regular expressions and invalid names",
  "The tests check a few error cases; the space of malformed requests and where they fail is unbounded.",
  [CORE + "vm/codegen.rs", CORE + "vm/vm.rs", CORE + "vm/operators/", CORE + "vm/update_operators/", CORE + "db/db_inner.rs", CORE + "db/client_cursor.rs"],
  [("requests are validated while code is generated", CORE + "vm/codegen.rs"), ("run time errors end the virtual machine", CORE + "vm/vm.rs")],
  ["absence of panics", "bytes of all documents before and after", "operations afterwards"],
  "structured fuzzing of requests with mutation of valid ones, against invariants of the state", TRUST)

p("C02", "What was acknowledged survives a crash, and nothing is left half done",
  "Whenever the process is killed, a write or sync fails, or the power goes at any point of the work of the database, opening it again succeeds and shows every operation and every committed transaction which had been acknowledged, and of the one in flight either all or nothing: its documents, index entries, index and collection definitions together. The recovered database passes for one which had been closed properly: it takes further operations, crashes and reopens.",
  ["crash_points", "fault_sequences", "histories"], "all histories of operations, transactions, index and collection changes and reopens; a crash before, after or within any call that changes a file, with or without loss of what was not synced, and any one or all later of these calls failing with EIO or ENOSPC; also during recovery",
  "The tests never end the process, and no file operation fails in them.",
  [CORE + "db/rocksdb_wrapper.rs", CORE + "db/rocksdb_transaction.rs", CORE + "db/rocksdb_options.rs", CORE + "db/db_inner.rs", CORE + "db/db.rs", CORE + "coll/collection.rs"],
  [("commits are written to the log with sync", CORE + "db/rocksdb_transaction.rs"), ("one RocksDB transaction per operation", CORE + "coll/collection.rs")],
  ["list_collection_names, find({}), lookups by index after recovery"],
  "crash and fault injection at generated points of generated histories, against the states a reference model allows",
  "Crashes are placed at calls of the C library which change files; power loss keeps what was synced and a prefix (for logs also garbage) of the rest; directory entries are taken to be durable. Two known findings are listed and kept out of the search: a torn first record of a log, and use of the database after an I/O error. Sampled crash points, not all of them.",
  level="fault_enumeration")

p("C17", "Concurrent operations behave as if they ran one after another",
  "When several threads use one database at once, every operation and every committed transaction takes effect at one moment between its call and its return: there is an order of them, in keeping with real time, in which each returns what it returned and which leaves the documents that are there in the end. In particular no increment is lost, no two documents get the same primary key or unique value, no insert fails or vanishes because of another, and nothing deadlocks.",
  ["schedules", "histories"], "all schedules of two to four threads running generated operations, transactions and index changes on few documents; in transactions, for documents which the transaction has locked by writing them",
  "The tests use one thread. A race needs a particular interleaving of several calls, which no fixed test produces.",
  [CORE + "db/db_inner.rs", CORE + "db/rocksdb_transaction.rs", CORE + "db/rocksdb_wrapper.rs", CORE + "coll/collection.rs", CORE + "transaction/transaction_inner.rs"],
  [("pessimistic transactions with locks for documents, unique values and collections", CORE + "db/rocksdb_transaction.rs"), ("automatic retry of operations which met a conflict", CORE + "coll/collection.rs"), ("reads at one moment by a snapshot", CORE + "db/db_inner.rs")],
  ["result and time span of each operation", "all documents and index lookups after all threads have ended"],
  "generated concurrent histories, with a search for a serial order the reference model accepts", "Real threads with random pauses; schedules are sampled and differ from run to run. A cursor's documents are judged as one read at its start. It trusts the reference model and RocksDB.")

p("C23", "Damage of the files is reported, never answered with wrong documents",
  "When bytes of the data files of a closed database have been changed, zeroed or cut off, opening the database and each later operation either reports an error or returns exactly what it would have returned without the damage. It never panics, hangs, invents or loses documents silently.",
  ["fault_sequences", "inputs"], "all flips, overwritten ranges and truncations of the table files of generated databases, and all queries afterwards",
  "The tests never damage a file; which byte and which read matter can only be explored by generation.",
  [CORE + "db/rocksdb_wrapper.rs", CORE + "db/rocksdb_options.rs", CORE + "db/rocksdb_iterator.rs", CORE + "cursor.rs", CORE + "vm/vm.rs"],
  [("checksums are verified on each read", CORE + "db/rocksdb_options.rs"), ("errors of iterators are passed on", CORE + "db/rocksdb_iterator.rs")],
  ["result of open", "results of find, find by _id, find by index, count and aggregate"],
  "fault injection at generated places of the files, against the reference model", "Table files of databases which were closed properly, without the last 200 bytes (except by truncation). Moved blocks, which the format of RocksDB cannot detect, are not generated.")

p("C24", "A cursor returns the documents of one moment, whatever happens meanwhile",
  "A cursor of find or aggregate which is open while the collection changes returns exactly what the query selected at the moment it was started: no document is missing, appears twice, or appears in a later state, when documents are inserted, changed and deleted, indexes created and dropped, between its steps. Within an explicit transaction a cursor returns each selected document which is not changed meanwhile exactly once; a cursor which is kept beyond the commit or rollback of its transaction reports an error or returns right documents, and never harms the process. The changes themselves are unaffected by open cursors.",
  ["histories", "schedules"], "all interleavings of the steps of up to several open cursors, of full scans, primary key and index queries, with inserts, updates, deletes and index changes",
  "The tests read a cursor to its end at once.",
  [CORE + "cursor.rs", CORE + "vm/vm.rs", CORE + "db/db_inner.rs", CORE + "db/rocksdb_iterator.rs"],
  [("a cursor reads by the snapshot of its own transaction", CORE + "db/db_inner.rs"), ("index scans look up each document they find", CORE + "vm/vm.rs")],
  ["documents which each cursor returns", "the collection after each change"],
  "model-based stateful testing of generated interleavings of cursors and changes", TRUST)

SRV = "src/polodb/"

p("C19", "The server does what the library does, for every client",
  "Each command which a client sends to the server over MongoDB's protocol has the effect and the result of the same operation of the library: inserts, updates, upserts, deletes, finds with sort, skip, limit and batches, aggregations, getMore, killCursors, and sessions with transactions. This holds for several connections and sessions at once, for arguments in the body or in document sequences, for requests sent without waiting for the replies, and for writes which ask for no reply. Each reply answers its request and is well-formed; cursors return each document once over all batches; failures are reported and change nothing else. Acknowledged writes survive the end of the server process.",
  ["histories", "inputs", "schedules"], "all sequences of commands on several connections, cursors and sessions, with every form of the messages, and kills and restarts of the server in between",
  "The tests of the server send one or two commands on one connection with a driver which hides the form of the messages; batches, sessions, sequences and their combinations need generated histories and an oracle for each result.",
  [SRV + "main.rs", SRV + "handlers/", SRV + "app_context.rs", SRV + "session_context.rs", SRV + "wire/", SRV + "reply.rs"],
  [("each command is dispatched to the library", SRV + "handlers/"), ("messages are decoded and encoded", SRV + "wire/")],
  ["replies of the server", "all documents after each history, by the server and by the library after it was killed"],
  "differential stateful testing of the server process against the library on a second database", "Sampled. The library is the oracle: its own behaviour is the subject of other properties. Commands whose results depend on each other are sent one after another; at the same instant (bursts of up to eight connections) only those whose results do not.")

p("C20", "No message a client sends can harm the server or other clients",
  "Whatever bytes a client sends, the server answers with an error, ignores them or closes that connection: it does not end, panic or hang, other connections and their open cursors continue to work, and documents change only by commands which are valid. What belongs to a connection is released when it is closed.",
  ["inputs", "histories"], "all byte sequences on a connection: valid commands with odd arguments, damaged frames, lengths, flags, section kinds and documents, deep nesting, and random bytes",
  "The tests send what a well-behaved driver sends.",
  [SRV + "main.rs", SRV + "handlers/", SRV + "wire/", SRV + "sync_read_ext.rs", SRV + "compression/"],
  [("lengths and kinds are checked while a message is decoded", SRV + "wire/")],
  ["replies, or the end of the connection", "the standard error of the server", "a control collection and an open cursor of another connection"],
  "generative fuzzing of the protocol with control clients", "Sampled. Exhaustion of memory by many connections or large messages is not explored.", level="exploration")

p("C21", "The Python binding does what the library does",
  "Each call of the Python binding has the effect and the result of the same operation of the library. None, booleans, integers of 64 bits, floats, strings, lists and dictionaries, nested in any way, are stored and returned unchanged with their types; a value which cannot be stored raises an exception and nothing is stored. Documents which the library wrote are returned with the Python values of their fields. Whatever the library reports as an error is an exception (a subclass of Exception), never a panic, a crash or silence, and the arguments are not changed.",
  ["histories", "inputs"], "all sequences of calls on several collections with reopening, and all values, among them values which cannot be stored",
  "The tests call each method once with small documents.",
  ["py-polodb/src/helper_type_translator.rs", "py-polodb/src/py_database.rs", "py-polodb/polodb/core.py"],
  [("values are converted in both directions", "py-polodb/src/helper_type_translator.rs"), ("calls are passed to the library, errors to Python", "py-polodb/src/py_database.rs")],
  ["return values and exceptions in the interpreter", "all documents, by the library after the database was closed"],
  "differential stateful testing of the extension module in a Python interpreter against the library", "Sampled. The library is the oracle. One thread of one interpreter; values of types which Python lacks (Decimal128, code with scope, MinKey, MaxKey) are not compared.")

p("C25", "A line diff turns one text into the other, and nothing less will do",
  "The operations which the line diff reports, applied to the first text, give the second one; lines which it does not mention are the same in both; it reports nothing exactly if the texts are equal; and their number is the least possible. The assertion which the tests of the virtual machine use fails exactly if the texts differ, and shows the differing lines.",
  ["inputs"], "all pairs of texts",
  "The crate has a few examples; an error which hides a difference would silently disable the tests which use it.",
  ["src/polodb_line_diff/lib.rs"],
  [("edit distance by lines, and the way back through its table", "src/polodb_line_diff/lib.rs")],
  ["the reported operations", "panic of assert_eq"],
  "property-based testing with an independent computation of the distance", "Sampled: texts of up to about 12 lines.")

p("C26", "Work which leaves no data behind leaves nothing behind in the process",
  "However often it is repeated, work on an open database which changes no documents needs no more memory, files or threads in the end than at its beginning: finds and aggregations read to their end or not, operations which fail or find nothing, transactions which are rolled back, dropped or only read, handles of collections, attempts to open a database which is in use. The same holds for opening a database, any operations on it, and closing it.",
  ["histories", "inputs"], "all sequences of operations and transactions, repeated without end",
  "The tests run each operation once and never look at what the process holds afterwards; a leak shows only in combination (an error at a certain place, a cursor left before its end) and by repetition.",
  [CORE + "db/rocksdb_wrapper.rs", CORE + "db/rocksdb_transaction.rs", CORE + "db/rocksdb_iterator.rs", CORE + "db/rocksdb_options.rs", CORE + "db/db_inner.rs", CORE + "db/client_cursor.rs", CORE + "transaction/"],
  [("objects of RocksDB are destroyed with their owners", CORE + "db/rocksdb_transaction.rs"), ("error messages and values of RocksDB are freed", CORE + "db/rocksdb_wrapper.rs")],
  ["memory in use by mallinfo2, with the caches of threads off", "open files and threads by /proc/self"],
  "generated programs, repeated, with the resources of the process as the invariant", "Sampled: up to 12 operations or transactions, repeated 68 times and, where something grew, up to 1136 times. A leak of less than 16 bytes per round is not seen. One thread.")

NA = []
# more properties are appended by the modules below

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in sorted(P, key=lambda x: x["id"]):
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=NA,
             notes="Every check is property-based testing: generated cases against an explicit oracle, shrunk and replayable. See DESIGN.md.")
    for x in sorted(P, key=lambda x: x["id"]):
        m["checks"].append(dict(property=x["id"], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough",
                                technique="property-based testing: " + x["_t"], level=x["_l"], level_note=x["_n"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
main()
