NOT_APPLICABLE = {}
check("C01 C02 C03", "crash",
      "exhaustive enumeration of histories, crash points and persisted-write subsets on the real journal code",
      "fault_enumeration",
      "all histories up to the stated length over a small alphabet; disk models stated in DESIGN.md")
check("C04", "share",
      "enumeration of all interleavings, at each system call, of real clients that share a file, with state hashing and kills",
      "model_checking",
      "two or three processes, programs of one to three transactions; simulated system calls")
check("C05", "journal",
      "exhaustive enumeration of operation and reading sequences on the real journal, compared with the sequence written",
      "model_checking",
      "all sequences up to the stated length over the stated alphabets of operations, reopenings, checkpoints and readers")
check("C06", "model",
      "breadth-first enumeration of all states of the real interpreted database, in lockstep with a relational model",
      "model_checking",
      "closed under data operations for a few identifiers; schema changes and types to the stated depth")
check("C07", "model",
      "breadth-first enumeration of all states of the real identifier keepers, compared with a set in every state",
      "model_checking",
      "closed under all operations up to the stated number of identifiers")
check("C08", "generated",
      "breadth-first enumeration of all states of real generated databases, in lockstep with a relational model and with reopened and interpreted copies",
      "model_checking",
      "all operation sequences to the stated depth over a few records, keys and schemas")
check("C09", "upgrade",
      "exhaustive enumeration of file histories, upgrade paths, crash points, torn writes and failures of upgrade functions on real generated code",
      "model_checking",
      "all contents of old files to the stated depth, for the stated schemas, with every crash point of the upgrade")
check("C15", "files",
      "exhaustive enumeration of operation sequences on every kind of file, with every short read or write up to a bound, in lockstep with an array of bytes",
      "model_checking",
      "all sequences to the stated length; sizes around the boundaries of the buffers; stated number of short reads")
check("C16", "files",
      "breadth-first enumeration of all states of real joedb streams, in lockstep with std::stringstream",
      "model_checking",
      "all sequences to the stated length, over contents below and around the size of the buffer")
check("C10", "server",
      "enumeration of all interleavings of the steps of the real asio server and of real clients over real sockets, with state hashing, kills and a virtual clock",
      "model_checking",
      "two or three clients, programs of one to three transactions, pushes, pulls, offline changes and reconnections")
check("C11", "server",
      "enumeration of all orders of messages, disconnections, kills and timeouts on the real asio server, in lockstep with a reference server",
      "model_checking",
      "two or three sessions, programs of one to four protocol messages, up to three expired timers")
check("C12", "server_asan",
      "enumeration of all sequences of messages over an alphabet of commands with boundary arguments, cut at every byte, on the real asio server with the address sanitizer",
      "model_checking",
      "one to three messages from one attacker; writable, read-only, pull-only and shared servers")
check("C13", "transaction",
      "enumeration of all sequences of transactions that throw, or whose connection or disk fails, at every step, on every real kind of client and connection, with the real asio server",
      "model_checking",
      "two clients, sequences of up to four actions, one fault in each")
check("C21", "hash",
      "exhaustive enumeration of lengths, ranges, kinds of files and patterns of short reads on the real hashing code, compared with an independent SHA-256",
      "model_checking",
      "lengths to 1100 and around the size of the buffer; two or three short reads; the bytes read by the fast hash for files up to 2^50 bytes")
check("C14", "iofault",
      "exhaustive enumeration of histories and of placements of failing or incomplete system calls on the real journal and file code, with the durable and cached images read after each step",
      "fault_enumeration",
      "histories to the stated length, one or two faults; a failed sync may drop data")
check("C19", "convert",
      "breadth-first enumeration of histories; every result of packing, dumping, converting, merging and exporting (functions and tools) is parsed by independent readers and compared",
      "model_checking",
      "all histories to the stated depth over alphabets of schema changes, values, vectors, blobs and merged files")
check("C20", "convert",
      "breadth-first enumeration of histories and exhaustive enumeration of strings, code points, columns and numbers, written and read back by the real text code",
      "model_checking",
      "all histories to the stated depth; strings to length 4 over critical bytes, all code points, all exponents")
check("C22", "hostile",
      "exhaustive enumeration of truncations, corrupted bytes and encoded operations, read by every real reader with the address and undefined-behaviour sanitizers and bounded memory",
      "model_checking",
      "valid files cut at every byte, one byte replaced, one or two operations over boundary arguments, bytes to the stated length")
check("C27", "fanout",
      "enumeration of all sequences of events through every small tree of multiplexers and every filter, and breadth-first enumeration of database states fed through them, compared with direct delivery",
      "model_checking",
      "sequences of two or three events, of every kind and type; four targets; databases to the stated depth")
check("C17", "encoded",
      "breadth-first enumeration of sequences of writes, reads, synchronizations, reopenings and decoding failures on real encoded files, in lockstep with an array of bytes, and enumeration of damaged compressed buffers",
      "model_checking",
      "all sequences to the stated length; sizes around the write buffer; all short strings through brotli")
check("C26", "opening",
      "breadth-first enumeration of sequences of openings in every mode, lockings, writes and closings of real files with the real kernel, compared with a reference model of files and locks; every failure of one system call during opening",
      "model_checking",
      "all sequences to the stated length with two or three handles; a lock that would wait is cancelled")
check("C18", "blob",
      "enumeration of all sequences of blob writes and other operations on the real journal, files, connections and server, every blob read back by every kind of reader after each step; all schedules of a writer and a reader to a preemption bound",
      "model_checking",
      "sequences of up to four operations; sizes around the buffers; two or three preemptions")
