#!/usr/bin/env python3
"""Source of properties.jsonl (run from anywhere; rewrites /verif/properties.jsonl)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": ["src/joedb/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/joedb/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "src/joedb/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "A power failure leaves exactly a committed prefix of the history",
 "If appended data reaches the disk in order while the small checkpoint records at the start of the file may be lost, kept or torn independently, then after a power failure at any moment the file can be reopened (recovery with the overwrite option) and its content is exactly the history up to one checkpoint that had been requested, at least as recent as the last completed hard checkpoint: never part of a transaction, never altered data. "
 "If unsynchronised writes may reach the disk in any order, recovery to the last hard checkpoint gives exactly the history up to a hard checkpoint. In both cases the recovered file accepts new transactions, whose content is again subject to the same guarantee.",
 ["crash_points", "histories"], "every history of writes and soft/hard checkpoints up to the bound, every crash point in it, every subset of unsynchronised writes lost, writes torn at their internal boundaries",
 "Journal_Test and the crash simulation sample a few hand-written truncations; which writes survive is a combinatorial choice no unit test enumerates.",
 ["journal/Readonly_Journal.cpp", "journal/Writable_Journal.cpp", "journal/Journal_Construction_Lock.cpp", "journal/File_Buffer.cpp"],
 [("two alternating pairs of checkpoint copies, written around a sync", "journal/Writable_Journal.cpp"),
  ("choice of the checkpoint at opening", "journal/Readonly_Journal.cpp"),
  ("recovery modes", "journal/Journal_Construction_Lock.cpp")],
 ["content replayed from the reopened file"],
 [("checkpoint", "position up to which the journal is valid", "journal/Header.h")])

prop("C02", "A hard checkpoint that returned survives any power failure",
 "Once a hard checkpoint has returned, every later power failure, at any instant and with any subset of unsynchronised writes lost, leaves a file that still contains at least everything written before that checkpoint. "
 "This remains true whatever soft checkpoints, further writes, reopenings or later hard checkpoints follow.",
 ["crash_points", "histories"], "every history of writes and soft/hard checkpoints up to the bound, every later crash point, every subset of unsynchronised writes lost",
 "No test can cut the power; the existing ones only check that the functions can be called.",
 ["journal/Writable_Journal.cpp", "journal/Readonly_Journal.cpp", "journal/Posix_File.cpp", "concurrency/File_Connection.cpp"],
 [("write data, sync, write checkpoint, sync", "journal/Writable_Journal.cpp"), ("sync", "journal/Posix_File.cpp")],
 ["content replayed from the reopened file"])

prop("C03", "Checkpoints are atomic and monotone for any other reader, and survive a kill",
 "If the writing process is killed between any two of its writes (the operating system surviving), or if another process opens or refreshes the file at such a moment, the content seen is exactly the history up to a checkpoint, is at least as recent as the last checkpoint (soft or hard) that had returned, and never goes backwards for a reader that is following the file.",
 ["crash_points", "schedules"], "every history up to the bound, every point between two writes of the writer, every reader that opens or pulls there",
 "Tests read only after the writer has finished an operation, never in the middle of one.",
 ["journal/Writable_Journal.cpp", "journal/Readonly_Journal.cpp", "journal/Journal_Construction_Lock.cpp"],
 [("soft checkpoint write order", "journal/Writable_Journal.cpp"), ("read_checkpoint, pull", "journal/Readonly_Journal.cpp")],
 ["content replayed by a reader"])

prop("C04", "Processes sharing a file behave as if their transactions ran one at a time",
 "When several processes open the same file in shared mode and run transactions, aborted transactions, checkpoints and pulls concurrently, the final journal is the concatenation of the committed transactions in some order, none lost, duplicated, torn or mixed with an aborted one. "
 "Inside a transaction each process sees all the transactions committed before it, and every process ends up with the same database after a last pull.",
 ["schedules"], "every interleaving of the file operations of two or three processes, up to a preemption bound",
 "The tests call the operations of several clients in a fixed order from a single thread.",
 ["concurrency/File_Connection.cpp", "concurrency/Writable_Client.h", "journal/Writable_Journal.cpp", "journal/Posix_File.cpp", "journal/Journal_Construction_Lock.cpp", "journal/Abstract_File.h"],
 [("head and tail range locks", "journal/Posix_File.cpp"), ("lock, pull, run, push, unlock", "concurrency/Writable_Client.h"),
  ("lock during opening", "journal/Journal_Construction_Lock.cpp")],
 ["final journal content", "database seen inside each transaction"])

prop("C05", "Replaying a journal reproduces exactly the operations that were written",
 "For every sequence of operations written to a journal (schema changes, insertions, deletions, updates of every type, vector operations, blobs, comments, timestamps), reading the journal back delivers the same operations with the same arguments in the same order. "
 "This holds whatever was written just before (compact encodings), wherever checkpoints, flushes and reopenings occur, and whether the reader reads everything at once or follows the file in several steps.",
 ["histories", "inputs"], "every sequence of operations up to the bound over an alphabet with boundary values, every placement of checkpoints/reopenings, every partition of the reading",
 "Encodings depend on the preceding operations (next insertion, next update...); tests replay a few fixed files.",
 ["journal/Writable_Journal.cpp", "journal/Readonly_Journal.cpp", "journal/File_Buffer.cpp", "journal/Buffer.h"],
 [("compact operations and their context", "journal/Writable_Journal.cpp"), ("one_step", "journal/Readonly_Journal.cpp"), ("compact integers", "journal/Buffer.h")],
 ["sequence of operations received by the replay target"])

prop("C06", "The interpreted database follows its model and refuses invalid operations",
 "After any sequence of schema and data operations, tables, fields, used records and values are exactly those of a simple relational model: names are unique and valid, defaults apply to new fields and vectors, dropped or renamed items do not affect others. "
 "An operation that is invalid in the current state is refused with an exception and changes neither the database nor what a combined journal/database would store.",
 ["histories"], "every sequence of operations, valid or not, up to the bound",
 "Tests check a handful of sequences; the interaction of drops, renames, vectors and reuse of records is not covered.",
 ["interpreted/Database.cpp", "interpreted/Table.cpp", "interpreted/Table.h", "interpreted/Database_Schema.cpp", "interpreted/Field.h", "Freedom_Keeper.h"],
 [("checks before mutation", "interpreted/Database.cpp"), ("schema checks", "interpreted/Database_Schema.cpp"), ("name checks", "is_identifier.cpp")],
 ["Readable interface"])

prop("C07", "Record identifiers are allocated, freed and enumerated like a set",
 "After any sequence of allocating, freeing, resizing and using single records or ranges, the set of used identifiers is exactly what the sequence implies: no identifier is handed out twice, tests for used/free single records and ranges are exact for all arguments, and iteration forward and backward visits every used identifier exactly once.",
 ["histories"], "every sequence of operations up to the bound, starting from dense and sparse states, every range argument in and around the bounds",
 "Tests follow a few paths; the switch between the dense and the linked representation and range operations across it is state-dependent.",
 ["Freedom_Keeper.h"], [("dense and sparse representations", "Freedom_Keeper.h")], ["Freedom_Keeper interface"])

prop("C08", "Generated code, interpreted database and replayed journal always agree",
 "After any sequence of operations through the generated C++ API (creating, inserting and deleting records and vectors of records, setting fields and vectors of fields), the generated database, a generated database reopened from the file and an interpreted database replaying the file hold the same data. "
 "Every index contains exactly the existing records with their current keys in order, lookups and ranges return exactly the matching records, and a unique index never holds two records for a key.",
 ["histories"], "every sequence of generated-API operations up to the bound on schemas with references, every field type, unique, non-unique and multi-column indexes",
 "The compiler tests run fixed scenarios; index maintenance depends on the order of updates, deletions and reuse of records.",
 ["compiler/generator/Database_h.cpp", "compiler/generator/Database_Writable_h.cpp", "compiler/generator/Writable_Database_h.cpp", "compiler/generator/Readable_h.cpp", "Freedom_Keeper.h", "Span.h"],
 [("index maintenance on update and delete", "compiler/generator/Database_h.cpp"), ("mirroring of updates into the journal", "compiler/generator/Writable_Database_h.cpp")],
 ["generated API", "replay of the journal"])

prop("C09", "Schema upgrades preserve data, run once and refuse incompatible files",
 "Opening a file with generated code whose schema extends the schema of the file upgrades it: all existing data is preserved, new fields and tables get their declared defaults, upgrade functions run exactly once, and any further opening changes nothing. "
 "A crash during the upgrade leaves a file that is either entirely old or entirely upgraded, and a file whose schema is not a prefix of the expected one is refused and left unmodified.",
 ["histories", "crash_points"], "every history of data in the old schema up to the bound, every old version, every crash point of the upgrade, every incompatible variation of the schema in the bound",
 "One upgrade of one fixed file is tested.",
 ["compiler/generator/Writable_Database_cpp.cpp", "compiler/generator/Database_Writable_h.cpp", "compiler/generator/Client_h.cpp", "compiler/generator/Readonly_Database_h.cpp"],
 [("schema comparison", "compiler/generator/Database_Writable_h.cpp"), ("automatic upgrade", "compiler/generator/Writable_Database_cpp.cpp")],
 ["generated API", "file bytes"])

prop("C10", "Replicas of a server never diverge silently and lose no acknowledged push",
 "For any sequence of transactions, pushes, pulls, reconnections and crashes of clients, the content of the server only ever grows by whole pushes of clients that were up to date, a push that was acknowledged is never lost or altered, and each connected client's journal is identical to the server's up to the smaller of the two checkpoints. "
 "A client whose local journal conflicts with the server gets an error, at connection or at push, and modifies nothing on the server.",
 ["histories"], "every sequence of client actions up to the bound by two or three clients (memory, file and server-backed files), every content-check mode",
 "Tests run fixed scenarios; reuse of a session after a conflict, partial pushes and reconnections after divergence are combinations they do not reach.",
 ["concurrency/Server.cpp", "concurrency/Server_Connection.cpp", "concurrency/Server_Client.cpp", "concurrency/Client.cpp", "concurrency/Writable_Client.h", "concurrency/Writable_Journal_Client.h", "concurrency/Connection.cpp", "concurrency/Server_File.cpp", "journal/File_Hasher.cpp"],
 [("conflict detection at push", "concurrency/Server.cpp"), ("content check at connection", "concurrency/Connection.cpp"), ("pull and push", "concurrency/Server_Connection.cpp")],
 ["server file bytes", "client file bytes", "exceptions"])

prop("C11", "The server grants its lock to one session at a time and never loses or leaks it",
 "At any time at most one session holds the server's write lock; every waiting session eventually obtains it, in order, when the holder unlocks, pushes with unlock, disconnects or times out, and a session that lost its lock by timeout cannot modify the journal as if it still held it. "
 "A pull that waits is answered as soon as new data is pushed, or when its time is over, and a disconnected session affects no other.",
 ["schedules", "histories"], "every order of protocol messages, disconnections and timeouts of two or three sessions up to the bound",
 "Real sockets and timers make every test follow one timing.",
 ["concurrency/Server.cpp", "concurrency/Server.h", "asio/Server.cpp"],
 [("lock queue", "concurrency/Server.cpp"), ("lock timeout", "concurrency/Server.cpp"), ("pull wakeup", "concurrency/Server.cpp")],
 ["messages sent by the server", "server file bytes"])

prop("C12", "No message sequence from a client can crash the server or corrupt its journal",
 "Whatever sequence of well-formed or boundary-valued messages a client sends (any order of commands, any positions and sizes, cut at any byte), the server keeps serving other sessions, its journal keeps its committed content and remains readable, and a server whose file is read-only or that is pull-only never changes it.",
 ["inputs", "histories"], "every sequence of messages up to the bound over an alphabet of commands with boundary arguments, every truncation point",
 "Tests and the fuzzer sample messages; a check of every short sequence with adversarial positions is out of reach by hand.",
 ["concurrency/Server.cpp", "asio/Server.cpp"],
 [("argument checks in each command", "concurrency/Server.cpp"), ("session life cycle", "asio/Server.cpp")],
 ["server file bytes", "replies to a second session"])

prop("C13", "A transaction that throws publishes nothing",
 "If the code of a transaction throws, at any step (or the lock object is destroyed or unlocked without committing), then nothing of it is ever visible to other clients or in the shared or server journal, the lock is released, and the client refuses to commit from its now inconsistent state. "
 "If storing or pushing a completed transaction fails, other clients see either all of it or nothing, at once or after its client pushes again. All transactions committed before, by anyone, are unaffected, and other clients can continue to commit.",
 ["histories", "fault_sequences"], "every position of the exception in the transaction, every kind of client and connection, every following sequence of client actions up to the bound",
 "Tests throw once at one position with one kind of client.",
 ["concurrency/Writable_Client.h", "concurrency/Client.h", "concurrency/Writable_Database_Client.h", "concurrency/Writable_Journal_Client.h", "compiler/generator/Client_h.cpp"],
 [("transaction and lock guards", "concurrency/Writable_Client.h")],
 ["shared journal content", "behaviour of all clients afterwards"])

prop("C14", "Input/output errors are reported and never damage committed data",
 "If any read, write or sync operation of the underlying file fails or is incomplete, at any point, then either an exception is reported or the operation is completed correctly: a checkpoint never appears to succeed when its data was not completely written, and data committed before the error remains readable and unaltered. "
 "A reader never delivers wrong data because of a short read.",
 ["fault_sequences"], "every single (and every pair of) failing or short system call in every history up to the bound",
 "Tests inject no fault in the real file layer except a full-disk script run by hand.",
 ["journal/Posix_File.cpp", "journal/Stream_File.cpp", "journal/Portable_File.cpp", "journal/File_Buffer.cpp", "journal/Writable_Journal.cpp", "journal/Abstract_File.cpp"],
 [("loops on short transfers and error checks", "journal/Posix_File.cpp"), ("buffer flushing", "journal/File_Buffer.cpp")],
 ["exceptions", "content of the reopened file"])

prop("C15", "Every kind of file behaves like a flat array of bytes",
 "For each kind of file (memory, read-only memory, disk, stream, slice of a file, upgradable, server-backed, buffered access on top of any of them), any sequence of reads, writes, appends, position changes and copies returns exactly the bytes that a flat array would, including at and beyond the end, across buffer boundaries and when the underlying device returns short reads. "
 "Comparing and copying files between any two kinds is exact.",
 ["histories", "inputs"], "every sequence of file operations up to the bound with offsets and sizes around buffer boundaries, every pattern of short reads up to the bound",
 "Tests use a few offsets; boundary combinations of position, size, buffer state and short reads are combinatorial.",
 ["journal/File_Buffer.cpp", "journal/File_Buffer.h", "journal/Buffer.h", "journal/Abstract_File.cpp", "journal/Memory_File.cpp", "journal/File_Slice.h", "journal/Stream_File.cpp", "journal/Posix_File.cpp", "journal/Upgradable_File.h", "journal/File_Iterator.h", "journal/Async_Reader.cpp", "journal/Async_Writer.h"],
 [("buffered reads and writes", "journal/File_Buffer.cpp"), ("copy and comparison", "journal/Abstract_File.cpp")],
 ["bytes returned", "bytes stored"])

prop("C16", "Standard streams over joedb files behave like standard string streams",
 "Any sequence of formatted or raw reads, writes, put-backs, seeks (absolute, relative, from the end) and flushes on a standard stream attached to a joedb file gives the same characters, positions, end-of-file and failure indications, and leaves the same file content, as on a standard library stream with the same initial content.",
 ["histories"], "every sequence of stream operations up to the bound around buffer boundaries, on files of every initial size in the bound",
 "The filebuf tests are fixed scripts; switching between reading, writing and seeking inside one shared buffer is state-dependent.",
 ["journal/filebuf.h", "journal/filebuf.cpp", "journal/fstream.h", "journal/iostream.h"],
 [("underflow, overflow, seekoff, sync", "journal/filebuf.cpp")], ["characters read", "file content"])

prop("C17", "Compressed files store and return exactly the bytes written",
 "For any sequence of writes, flushes, checkpoints and reads at any position of an encoded (compressed) file, reads return exactly the last bytes written there, before and after flushing, after closing and reopening, and through the read-only variant, including sizes and positions at, across and beyond the end. "
 "A database stored in such a file behaves as in a plain file.",
 ["histories"], "every sequence of writes (append, overlap, overwrite), flushes, reads and reopenings up to the bound",
 "Tests write and read sequentially; overlapping blocks and reads at the end are not enumerated.",
 ["journal/Encoded_File.cpp", "journal/Readonly_Encoded_File.cpp", "journal/Brotli_File.cpp", "journal/Readonly_Brotli_File.cpp", "journal/Brotli_Codec.cpp", "journal/Codec.h", "db/encoded_file.joedbi"],
 [("write buffer and block index", "journal/Encoded_File.cpp"), ("lookup of blocks for a read", "journal/Readonly_Encoded_File.cpp")], ["bytes returned"])

prop("C18", "A blob always reads back as the bytes that were written",
 "A blob reference obtained by writing a blob, stored in any record, keeps designating exactly the bytes written, whatever is written afterwards, and whether it is read by the writer before or after a checkpoint, by a reopened file, by a reader following the file, or by another client through a connection. "
 "Writing blobs of any size, including empty and larger than internal buffers, does not disturb the surrounding operations.",
 ["histories", "inputs"], "every sequence of blob writes and other operations up to the bound with sizes around buffer boundaries, every kind of reader",
 "Tests write one blob of one size.",
 ["journal/Writable_Journal.cpp", "journal/Readonly_Journal.cpp", "journal/Abstract_File.cpp", "Blob.h", "concurrency/Server_File.cpp"],
 [("blob position and size", "journal/Writable_Journal.cpp"), ("read_blob", "journal/Abstract_File.cpp")], ["bytes read"])

prop("C19", "Packing, merging, converting and dumping preserve the data",
 "Packing a journal yields the same schema, records at the same identifiers and values; replaying, converting and dumping to another journal or database yield an equal database (up to renumbering of dropped tables and fields); merging databases yields exactly the union of their records, each shifted by the size of what precedes it with references following their targets. "
 "The SQL dump and the JSON export describe exactly the live records and values.",
 ["histories"], "every history of schema and data operations up to the bound as the source database",
 "Tests use one or two sample databases.",
 ["ui/dump.cpp", "ui/merge.cpp", "ui/inplace_pack.cpp", "ui/json.cpp", "ui/SQL_Dump_Writable.cpp", "Selective_Writable.cpp", "Multiplexer.cpp"],
 [("pack and dump", "ui/dump.cpp"), ("merge", "ui/merge.cpp")], ["database obtained"])

prop("C20", "The textual form of data reads back to the same data",
 "Any string of bytes written as a quoted string, in base64 or in JSON reads back identically (JSON reports strings that are not UTF-8 instead of producing an invalid document), and any value of any type written in text and parsed back is unchanged within the written precision. "
 "Feeding the text dump of a database history to the command interpreter rebuilds an identical database, and justified table display never exceeds its column width.",
 ["inputs", "histories"], "every byte string up to the bound over an alphabet covering each class of byte, every history up to the bound",
 "Escaping depends on neighbouring bytes; tests use a few strings.",
 ["ui/type_io.cpp", "ui/minimal_runtime_io.cpp", "ui/base64.cpp", "ui/base64_decode.cpp", "ui/json.cpp", "ui/Interpreter_Dump_Writable.cpp", "ui/Command_Interpreter.cpp", "ui/Data_Manipulation_Command_Processor.cpp", "ui/Readable_Writable_Command_Processor.cpp"],
 [("escaping and parsing", "ui/type_io.cpp"), ("interpreter commands", "ui/Data_Manipulation_Command_Processor.cpp")], ["parsed values", "database rebuilt"])

prop("C21", "Content hashes are correct and depend only on the bytes hashed",
 "The hash of any content is its SHA-256, whatever its length and however the underlying file splits the reading; the hash of a range is the hash of those bytes. "
 "The fast hash used to compare replicas depends only on the bytes of the range and its position, is the same on every kind of file, never changes when bytes outside the hashed range change, and samples the beginning, the end, and the range in between regularly.",
 ["inputs"], "every length up to the bound, every start and size in the bound, every pattern of short reads up to the bound",
 "Tests hash a few fixed strings.",
 ["journal/SHA_256.h", "journal/File_Hasher.cpp"],
 [("padding and block loop", "journal/SHA_256.h"), ("range and sampled hashing", "journal/File_Hasher.cpp")], ["hash values"])

prop("C22", "A damaged or hostile file is refused or read safely",
 "Opening and reading a file with any content, obtained by arbitrary short operation bytes or by any small corruption of a valid file, either succeeds or reports an exception: it never crashes, reads or writes out of bounds, loops forever or allocates memory out of proportion to the file, in the interpreted database and in generated code alike. "
 "Reading never modifies the file.",
 ["inputs"], "every operation-byte sequence up to the bound, every single-byte corruption and truncation of a set of journals covering every operation",
 "The fuzzer samples inputs and is not part of the tests.",
 ["journal/Readonly_Journal.cpp", "journal/Journal_Construction_Lock.cpp", "interpreted/Database.cpp", "interpreted/Database_Schema.cpp", "compiler/generator/Database_Writable_h.cpp", "compiler/generator/Database_h.cpp"],
 [("bounds on sizes read from the file", "journal/Readonly_Journal.cpp"), ("checks on replayed operations", "interpreted/Database.cpp")], ["process status", "exceptions"])

prop("C23", "A remote procedure call returns exactly the procedure's result or its error",
 "For any sequence of calls by one or several clients, each call executes the requested procedure exactly once on exactly the data sent and the client's message then equals the result written by the procedure, whatever the sizes; if the procedure throws, that client gets the error text and all sessions remain usable. "
 "A client whose procedures differ from the server's in any signature is refused.",
 ["histories", "inputs"], "every sequence of calls up to the bound with message and error sizes around buffer boundaries",
 "Tests call a few procedures once with tiny messages.",
 ["rpc/Server.h", "rpc/Client.h", "rpc/get_hash.cpp", "compiler/generator/RPC_Client_h.cpp", "compiler/generator/Procedure_h.cpp"],
 [("message framing", "rpc/Server.h"), ("call", "rpc/Client.h"), ("signature hash", "rpc/get_hash.cpp")], ["message after the call", "exceptions"])

prop("C24", "Keep-alive and concurrent use of a connection never mix up messages",
 "Whatever the interleaving between the keep-alive thread and the threads using a connection, the bytes exchanged with the server are a sequence of whole requests and replies, each caller gets the reply to its own request, and no request is sent before the handshake. "
 "Destroying the connection always terminates, without any request after the session is closed, and there is no deadlock.",
 ["schedules"], "every interleaving of one or two user threads with the keep-alive thread, up to a preemption bound",
 "Tests run on real time where the keep-alive almost never coincides with a request.",
 ["concurrency/Keep_Alive_Thread.h", "concurrency/Server_Client.cpp", "concurrency/Server_Connection.cpp", "concurrency/Server_File.cpp", "Thread_Safe.h", "rpc/Client.h"],
 [("channel lock", "Thread_Safe.h"), ("ping loop", "concurrency/Keep_Alive_Thread.h")], ["bytes on the channel", "values returned to callers"])

prop("C25", "A robust connection survives disconnections without losing or duplicating data",
 "With a connection that reconnects automatically, whatever requests are lost, whatever replies are lost and however often, an operation that returns normally has had exactly its effect on the server, once, and the client's copy remains consistent with the server. "
 "When the disconnection makes the outcome unsafe (a lock may have been lost), an error is reported instead of continuing.",
 ["fault_sequences"], "every sequence of operations up to the bound with a failure injected before or after every message, up to the bound on the number of failures",
 "Tests simulate one disconnection.",
 ["concurrency/Robust_Connection.cpp", "concurrency/Robust_Connection.h", "concurrency/Server_Client.cpp", "concurrency/Connector.h"],
 [("try again after reconnection", "concurrency/Robust_Connection.cpp")], ["server file", "client file", "exceptions"])

prop("C26", "Opening modes and file locks give exactly the promised access",
 "For every opening mode and every state of the path (missing, empty, existing), opening succeeds, creates, or fails as documented; a file opened for reading is never modified or created; a file opened for exclusive writing cannot be opened by another writer until it is closed, and a file being opened is never truncated. "
 "Whatever sequence of openings, lockings and closings by several handles, shared and exclusive locks are granted exactly when compatible, and released at closing.",
 ["configurations", "histories"], "every pair and triple of opening modes in every order of opening and closing, every initial state of the path, every sequence of lock operations up to the bound",
 "Tests check some pairs of modes.",
 ["journal/Posix_File.cpp", "journal/Posix_File.h", "journal/Abstract_File.h", "journal/Open_Mode.h", "journal/Upgradable_File.h", "journal/Readonly_Journal.cpp"],
 [("open flags and locks", "journal/Posix_File.cpp")], ["result of opening", "bytes on disk"])

prop("C27", "Fan-out and filtering deliver exactly the selected operations",
 "An operation sent to a multiplexer reaches each of its targets once, in order, with the same arguments, blob data going to the targets that want it; a filter lets through exactly the operations of its category and nothing else. "
 "Databases fed through them are therefore equal to databases fed directly.",
 ["histories"], "every sequence of operations of every kind and type up to the bound, every combination of targets and filter mode",
 "Tests send a few operations.",
 ["Multiplexer.cpp", "Multiplexer.h", "Selective_Writable.cpp", "Selective_Writable.h", "Writable.cpp", "Writable.h"],
 [("forwarding of every operation", "Multiplexer.cpp"), ("filtering", "Selective_Writable.cpp")], ["operations received by the targets"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
