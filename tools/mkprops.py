#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
W = "tsfile-writer/src/writer/"
S = "tsfile-writer/src/sync/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

HK = "cfg(tsfile_verif): small page/chunk-group thresholds, in-memory sink constructor"

p("C01", "Every accepted point is in the closed file, exactly once and in order",
  "After a writer is closed, decoding the file yields, for every series of the schema, exactly the (timestamp, value) pairs whose writes were accepted, bit for bit and in the order written, and nothing else. This holds for every data type, encoding and compression the schema allows, for any interleaving of single and multi-point writes over devices and sensors, and however many pages and chunk groups the data was split into.",
  ["histories", "inputs", "configurations"],
  "all write histories over any schema, with page seals and automatic flushes falling at any point",
  "Tests compare a handful of single-page files byte for byte; none decodes a file, none reaches a second page in a checked file, and none reaches an automatic chunk-group flush (128 MiB).",
  [W+f for f in ("tsfile_writer.rs","group_writer.rs","chunk_writer.rs","tsfile_io_writer.rs","encoding/plain.rs","encoding/time_encoder.rs","compression.rs")],
  [("page sealing and header rewriting on the second page", W+"chunk_writer.rs write_page_to_buffer"),
   ("chunk-group flush and reset of the group writers", W+"tsfile_writer.rs flush_all_chunk_groups/reset"),
   ("record counter that gates flushing", W+"tsfile_writer.rs record_count")],
  [("page_buffer", "sealed pages of the open chunk", W+"chunk_writer.rs"), ("num_pages", "selects page header layout", W+"chunk_writer.rs")],
  ["bytes of the closed file, decoded by an independent reader"], HK)

p("C02", "Writes are accepted iff time strictly increases within the series",
  "A write whose device, sensor and value type match the schema is accepted exactly when its timestamp is non-negative and strictly greater than every timestamp accepted earlier for that series; otherwise it is refused as out-of-order data. The decision depends only on that series' own accepted points: not on other series, on rejected writes, or on whether buffered data was flushed to the file in between.",
  ["histories", "inputs"],
  "all histories of writes and multi-point writes over several series, including those crossing page seals and automatic flushes, and boundary timestamps 0, -1, i64::MIN and i64::MAX",
  "One test writes one duplicate timestamp to one series; no test has two series, a flush between two writes, or a boundary timestamp.",
  [W+"group_writer.rs", W+"tsfile_writer.rs"],
  [("per-series last timestamp check", W+"group_writer.rs check_is_history_data"), ("last timestamps kept across a flush", W+"tsfile_writer.rs flush_all_chunk_groups/reset")],
  [("last_time_map", "last accepted timestamp per sensor", W+"group_writer.rs"), ("non_aligned_timeseries_last_time_map", "the same, saved at a flush", W+"tsfile_writer.rs")],
  ["return value of every write call"], HK)

p("C03", "A refused write returns an error and leaves no trace",
  "A write that cannot be stored (unknown device or sensor, value of another type than the series, encoding not available for the type, out-of-order timestamp) returns an error naming one of the reasons that apply and never panics. The file produced is the same as if the refused write had never been issued, and the writer stays usable; when a multi-point write is refused part-way, the points before the refused one count as accepted and the rest leave no trace.",
  ["histories", "inputs"],
  "all histories mixing valid writes with every kind of invalid single or multi-point write at every position",
  "Tests exercise one rejection kind (duplicate timestamp) and never look at the file afterwards; type mismatch, unknown names, unsupported encodings and partial multi-point failures are untested.",
  [W+"tsfile_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"statistics.rs", W+"errors.rs"],
  [("error returns of the write path", W+"group_writer.rs write / chunk_writer.rs write"), ("encoder selection by (type, encoding)", W+"encoding/mod.rs"), ("accepted-record count of a partially refused multi-point write", W+"tsfile_writer.rs write_many")],
  (), ["return values", "decoded file contents compared with the history without the refused writes"], HK)

p("C04", "A closed file is structurally valid TsFile v3, every byte accounted for",
  "A closed file starts with the magic and version 3, ends with the metadata size and the magic, and a forward scan from the head consumes it exactly: chunk groups whose chunk headers, page headers and declared sizes match the bytes present, then the separator at the recorded metadata offset, then series metadata, index nodes, file metadata and Bloom filter. Every recorded offset and length (chunk offsets, metadata list sizes, index offsets and end offsets, metadata offset, metadata size) points exactly at the structure it names.",
  ["histories", "inputs", "configurations"],
  "all schemas and write histories, including none at all, any name lengths, any number of pages, chunks and chunk groups",
  "Byte-for-byte expectations exist for a few one-series, one-page files only; multi-page, multi-chunk, multi-device layouts are never checked.",
  [W+"tsfile_io_writer.rs", W+"chunk_writer.rs", W+"mod.rs", W+"utils.rs"],
  [("position tracking of the sink", W+"mod.rs WriteWrapper"), ("chunk/page header serialization", W+"chunk_writer.rs"), ("footer and offsets", W+"tsfile_io_writer.rs end_file")],
  [("position", "bytes written so far; source of all offsets", W+"mod.rs WriteWrapper")], ["bytes of the closed file"], HK)

p("C05", "Every written series can be found through the file's index, and only those",
  "Looking a series up the way TsFile readers do (binary search for the device, then for the sensor, down the index tree, with entries sorted by name in every node) reaches that series' metadata and all its chunks, for every series that has data, and finds nothing for any other name. This holds for any number of devices and sensors, also when the tree needs several levels, and for any names the schema accepts, including names containing dots. No node of the index has more entries, and no entry stands for more series, than the fan-out.",
  ["inputs", "configurations"],
  "all sets of device and sensor names, any size (index fan-out 256), any subset of them written",
  "No test has more than one device with a checked file, none has more than three series, and the one two-device byte test is disabled as luck dependent.",
  [W+"mod.rs", W+"tsfile_io_writer.rs", W+"ts_file_config.rs"],
  [("index tree construction", W+"mod.rs construct_metadata_index / generate_root_node"), ("grouping of chunks by device and sensor", W+"tsfile_io_writer.rs end_file / flush_metadata_index")],
  [("max_degree_of_index_node", "index fan-out", W+"ts_file_config.rs")], ["index nodes of the closed file"],
  "cfg(tsfile_verif): constructor with a chosen index fan-out")

p("C06", "Recorded statistics equal the true statistics of the points they cover",
  "The count, first and last timestamp, minimum, maximum, first value, last value and sum recorded for every page, chunk and series are those of exactly the points stored there (sums of floating-point or 64-bit values up to rounding; minimum and maximum range over the values that are not NaN). This holds for every value and timestamp the writer accepts, including infinities, NaN, extreme integers and the largest timestamp.",
  ["inputs", "histories"],
  "all sequences of accepted points, all splits into pages, chunks and chunk groups",
  "Tests fix the statistics bytes of single-chunk files with small ascending values; merged statistics, extremes and special floats are unchecked.",
  [W+"statistics.rs", W+"chunk_writer.rs", W+"tsfile_io_writer.rs"],
  [("incremental update", W+"statistics.rs update"), ("merging pages into chunks and chunks into series", W+"statistics.rs merge")],
  (), ["statistics fields in page headers, chunk metadata and series metadata"], HK)

p("C07", "The Bloom filter contains every series in the file",
  "For every series present in a closed file, membership of its full path (device, dot, sensor) in the file's Bloom filter, evaluated as TsFile readers do (128-bit murmur hash with the format's seeds), is true. The filter has the size and number of hash functions the format prescribes for the number of series, and writing it succeeds for any number of series and any names.",
  ["inputs", "configurations"],
  "all sets of series paths: every count and every path length (ASCII)",
  "Tests fix the filter bytes for one or three short paths; longer paths, other counts and other filter sizes are unchecked.",
  [W+"mod.rs", W+"murmur128.rs", W+"ts_file_config.rs"],
  [("filter sizing, insertion and serialization", W+"mod.rs BloomFilter"), ("murmur hash port", W+"murmur128.rs")],
  (), ["Bloom filter bytes of the closed file"], "cfg(tsfile_verif): in-memory sink constructor")

p("C08", "Encoded columns decode to the exact values over the whole value domain",
  "For every sequence of values of a series' type and every sequence of accepted timestamps, the bytes stored under PLAIN and TS2DIFF, compressed or not, decode by the TsFile format rules to exactly that sequence. This includes differences that exceed the integer range, runs of equal differences, single values, and lengths on either side of every block boundary.",
  ["inputs"],
  "all value and timestamp sequences of INT32, INT64 and FLOAT (FLOAT only PLAIN), all lengths",
  "Tests encode only short ascending ramps with difference 1 or 2 and never decode; wrap-around differences, non-trivial bit widths and block boundaries are untested.",
  [W+"encoding/time_encoder.rs", W+"encoding/plain.rs", W+"encoding/mod.rs", W+"utils.rs"],
  [("delta block encoder and bit packing", W+"encoding/time_encoder.rs"), ("plain encoder with zig-zag var-int", W+"encoding/plain.rs")],
  [("values/min_delta/previous_value", "open delta block", W+"encoding/time_encoder.rs")], ["page payload of the closed file"], None)

p("C09", "Buffering is bounded: pages and chunk groups close near their size limits",
  "For input whose encoded size per point is steady, no page holds much more than 64 KiB of encoded data (at most about twice, reached only by the first page), and once the estimated buffered data of all series passes 128 MiB it is written to the file within the same write call. Memory held for points accepted but not yet in the file therefore stays bounded however long the stream is, and after such a flush buffering starts again from zero.",
  ["histories"],
  "all steady write streams of any length over any schema",
  "The longest checked test stream has 1001 points (one page); the only flush test is disabled and needs an external tool.",
  [W+"chunk_writer.rs", W+"tsfile_writer.rs", W+"group_writer.rs"],
  [("adaptive page check", W+"chunk_writer.rs check_page_size_and_may_open_new_page"), ("adaptive memory check", W+"tsfile_writer.rs check_memory_size_and_may_flush_chunks")],
  [("value_count_in_one_page_for_next_check", "next page check", W+"chunk_writer.rs"), ("record_count_for_next_mem_check", "next memory check", W+"tsfile_writer.rs")],
  ["sink position after each write", "page and chunk sizes in the file"], HK)

p("C10", "File bytes are a function of schema content and accepted points",
  "Two writers given schemas with the same content and the same accepted points per series produce byte-identical files, as long as no automatic flush intervenes. Neither the order in which devices and sensors were added to the schema, nor the interleaving of writes to different series, nor the use of multi-point instead of single-point writes, nor the time at which or the speed with which the calls are made, nor the process, its environment or the run changes any byte.",
  ["histories", "configurations"],
  "all permutations of schema construction, all interleavings of the writes of different series, all groupings into multi-point writes, all points at which time may pass",
  "Byte expectations exist only for one-device files; the two-device expectation is disabled because the output depended on hash-map order.",
  [W+"tsfile_writer.rs", W+"mod.rs", W+"tsfile_io_writer.rs", W+"schema.rs"],
  [("ordered maps for devices and sensors", W+"tsfile_writer.rs, group_writer.rs, mod.rs")],
  (), ["bytes of the closed file"], "cfg(tsfile_verif): in-memory sink constructor")

p("C11", "Writers are independent of each other",
  "Any number of writers may be alive at once and used alternately or at the same time, on one thread or on several; each produces exactly the file it produces when used alone.",
  ["schedules", "histories"],
  "all interleavings of the operations of several live writers, including ones created, closed or abandoned in the middle of another's life",
  "Tests use one writer at a time per thread and do not compare outputs across concurrent writers.",
  [W+"tsfile_writer.rs", W+"chunk_writer.rs", W+"encoding/time_encoder.rs"],
  [("all state is owned by the writer", W+"tsfile_writer.rs")],
  (), ["bytes of each closed file"], "cfg(tsfile_verif): in-memory sink constructor")

p("C12", "How the operating system splits writes never changes the file",
  "If the underlying file or sink takes only part of the bytes offered to a write, or interrupts a write, at any points, the finished file is byte-identical to the one produced when every write completes at once, and all offsets in it are right.",
  ["fault_sequences"],
  "all patterns of short writes and interrupted writes over the whole byte stream",
  "Tests only use sinks that accept every byte at once.",
  [W+"mod.rs", W+"tsfile_io_writer.rs", W+"chunk_writer.rs", W+"encoding/plain.rs"],
  [("complete-write loops on the sink", W+"mod.rs Serializable impls"), ("position counts accepted bytes", W+"mod.rs WriteWrapper")],
  (), ["bytes of the closed file"], "cfg(tsfile_verif): in-memory sink constructor")

p("C13", "An I/O failure is never reported as success",
  "If any write to the underlying file fails during any call, that call returns an error and does not panic, and no later call on that writer claims to have completed the file. Conversely close reports success only if the complete, valid file has been handed to the operating system. What a failed writer leaves behind is a prefix of the file it would have produced.",
  ["fault_sequences", "histories"],
  "every write request issued over the life of a writer failing, once or permanently, with the error kinds a full or broken disk produces",
  "No test injects an I/O error.",
  [W+"tsfile_writer.rs", W+"tsfile_io_writer.rs", W+"group_writer.rs", W+"chunk_writer.rs", W+"mod.rs"],
  [("error propagation from the sink through flush and close", W+"tsfile_writer.rs close/write, tsfile_io_writer.rs end_file")],
  (), ["return values of write, write_many, constructor and close", "the file"], "cfg(tsfile_verif): in-memory sink constructor")

p("C14", "After a crash the file is a readable prefix and never passes for complete",
  "Data reaches the file strictly by appending, so that after a crash at any moment the bytes present are a prefix of the finished file; a forward scan of that prefix recovers every chunk that is completely present, with exactly the accepted points in it, including all data flushed by completed write calls before the crash. No proper prefix is mistaken for a finished file.",
  ["crash_points", "histories"],
  "every cut of the byte stream of every write history, at byte granularity",
  "No test looks at a file that was not closed.",
  [W+"tsfile_io_writer.rs", W+"tsfile_writer.rs", W+"chunk_writer.rs"],
  [("append-only output, headers before data", W+"tsfile_io_writer.rs"), ("footer written last, magic at the very end", W+"tsfile_io_writer.rs end_file")],
  (), ["sink contents after every call and at every byte"], HK)

p("C15", "Opening a writer starts a fresh file or reports why it cannot",
  "Creating a writer for a path creates missing parent directories and an empty file there, replacing any earlier content, so that after close the file on disk holds exactly the bytes of this writer, complete as soon as close returns. If the file cannot be created (missing permission, path is a directory, a parent is a file, empty path) creation returns an error and does not panic.",
  ["configurations", "inputs"],
  "all initial states of the target path and its parents, all path shapes",
  "Tests write to one existing directory and never read the file back or use an unusable path.",
  [W+"tsfile_writer.rs"],
  [("directory creation and truncating open", W+"tsfile_writer.rs TsFileWriter::new")],
  (), ["file system after close", "result of the constructor"], None)

p("C16", "A closed writer stays closed: its file is finished exactly once",
  "After close has succeeded the file is final: closing again changes nothing, and any further write is refused with an error and adds nothing to the file.",
  ["histories"],
  "all histories of writes and closes, with any number of operations after the first close, on empty and non-empty writers",
  "Every test closes once, as the last operation.",
  [W+"tsfile_writer.rs", W+"tsfile_io_writer.rs"],
  [("close", W+"tsfile_writer.rs close"), ("footer", W+"tsfile_io_writer.rs end_file")],
  (), ["bytes of the file after each operation", "return values"], "cfg(tsfile_verif): in-memory sink constructor")

p("C17", "Variable-length integers round-trip over the whole 32-bit range",
  "For every 32-bit unsigned value, the variable-length encoding is the canonical 7-bit little-endian one, its announced and predicted lengths equal the number of bytes produced, and reading it back yields the value and consumes exactly those bytes. Signed values use the zig-zag mapping, for every 32-bit signed value.",
  ["inputs"],
  "all 2^32 unsigned and all 2^32 signed values",
  "Tests read back nine values and check the bytes of three.",
  [W+"utils.rs"],
  [("encode, size and decode functions", W+"utils.rs")],
  (), ["encoded bytes and decoded values"], "cfg(tsfile_verif): exposes the codec functions")

p("C18", "Schemas and type codes say exactly what was declared",
  "A built schema contains exactly the devices and sensors added, each with the type, encoding and compression last declared for it, whatever the order and repetition of the calls, and building again or extending a builder afterwards does not alter schemas built before. The numeric codes of data types, encodings and compressions are those of the TsFile format, convert back to the same item, and every other code is refused.",
  ["inputs", "histories"],
  "all builder call sequences; all 256 code values",
  "One test counts the devices and sensors of one schema; no test checks the codes.",
  [W+"schema.rs", W+"mod.rs", W+"encoding/mod.rs", W+"compression.rs"],
  [("builders", W+"schema.rs"), ("code conversions", W+"mod.rs TSDataType, encoding/mod.rs, compression.rs")],
  (), ["Schema iteration, chunk headers of written files"], None)

p("C19", "The metadata log handed to a server describes the schema completely",
  "The metadata log generated for a storage group and a schema is a sequence of records, each with exact length and CRC-32 of its payload, that parses completely into one storage-group plan followed by exactly one create-series plan per series of the schema, with full path, type, encoding and compression as declared. Records accumulate only what was added since the previous flush.",
  ["inputs", "histories"],
  "all schemas and storage-group names, all sequences of plan additions and flushes",
  "Tests fix the bytes for one storage group and one series.",
  [S+"mlog.rs", S+"sync_sender.rs"],
  [("plan serialization and record framing", S+"mlog.rs"), ("schema walk", S+"sync_sender.rs write_mlog")],
  (), ["bytes of the log"], "cfg(tsfile_verif): exposes the log writer")

p("C20", "A sync connection is reported established only if the server accepted it",
  "Opening a sync sender sends one confirmation request carrying the given address, identity, partition interval and protocol version, and succeeds exactly when the server's answer to that request arrives completely, can be decoded and accepts it. A refusal, an exception, an answer to another request, an undecodable or truncated answer or a lost connection makes it return an error, without panicking.",
  ["fault_sequences", "inputs"],
  "all server behaviours: every answer kind, every truncation point of the answer, disconnects before, during and after the request; all combinations of given and defaulted parameters",
  "The only test is disabled because it needs a server.",
  [S+"sync_sender.rs", S+"sync.rs"],
  [("handshake", S+"sync_sender.rs _connect"), ("client stub", S+"sync.rs check")],
  (), ["result of opening the sender", "bytes received by the server"], None)

p("C21", "The sender identity is stable and survives crashes",
  "When no identity is given, the sender uses a stored 32-digit hexadecimal identity, creating and saving one on first use; every later start in the same directory presents the same identity. A crash or write failure at any moment during the first start never leads to an empty or malformed identity being presented later, nor to a change of an identity already presented. Senders started at the same time present the same identity too.",
  ["crash_points", "fault_sequences", "schedules"],
  "process death before and after every file-system operation of a start, partial writes at every byte, power failures, failing file-system operations, any number of restarts, all orders of the file-system operations of starts at the same time",
  "No test starts a sender.",
  [S+"sync_sender.rs"],
  [("identity file", S+"sync_sender.rs get_or_generate_uuid")],
  (), ["identity in the confirmation request", "identity file"], None)

p("C22", "A sync transfers schema and file intact or reports failure",
  "Synchronising a file performs the protocol steps in order (start, storage group, metadata log with its digest, data file with its digest, end), and the receiver ends up with exactly the metadata log of the schema and exactly the bytes of the local file under the protocol's name for it. It reports success only if every step was confirmed by the receiver; any refusal, digest mismatch, unreadable file or lost connection makes it return an error without panicking.",
  ["fault_sequences", "inputs"],
  "all positions at which a step is refused, answered with an exception, or the connection lost; all file contents",
  "No test runs a transfer; the only test of the module is disabled.",
  [S+"sync_sender.rs", S+"sync.rs"],
  [("transfer sequence", S+"sync_sender.rs sync"), ("digest", S+"sync_sender.rs calculate_digest")],
  (), ["requests received by the server", "result of the transfer"], "cfg(tsfile_verif): exposes the private transfer function")

p("C23", "The C interface writes the same files and does not keep callers' write strings",
  "A file written through the C interface is byte-identical to the one written through the Rust interface with the same schema and points. Device and sensor strings passed to a write call are only used during that call; a schema may serve several writers and be freed in any order relative to them as long as the strings it was created from stay valid, and null handles to free and close are ignored.",
  ["histories", "inputs"],
  "all legal sequences of schema creation, writer creation, writes, closes and frees over several schemas and writers, with call strings reused or overwritten after each call",
  "There are no tests of the C interface.",
  ["tsfile-writer-c/src/lib.rs", W+"group_writer.rs", W+"tsfile_writer.rs"],
  [("handle passing by boxed pointers", "tsfile-writer-c/src/lib.rs"), ("keys of the per-series time map", W+"group_writer.rs")],
  (), ["files on disk", "behaviour after string buffers are overwritten"], None)

p("C24", "The Python wrapper writes the same files and raises instead of corrupting",
  "A file written through the Python classes is byte-identical to the one written through the Rust interface with the same schema and points, for all names, every non-negative 64-bit timestamp and every 32-bit value. Schemas and writers may be freed, closed or forgotten in any order, also by leaving a with block through an exception, and a writer goes on working after its schema is freed. Freeing, closing or using an object that is freed or closed already, and a value or timestamp that is no integer or out of range, raise an exception and leave every file as it would have been without.",
  ["histories", "inputs"],
  "all programs of creation, writes, frees, closes and misuse over several schemas and writers, and all the lifetimes of the strings behind them",
  "There are no tests of the Python wrapper.",
  ["tsfile-writer-c/rust.py", "tsfile-writer-c/src/lib.rs"],
  [("strings kept alive by Schema and TsFileWriter", "tsfile-writer-c/rust.py"), ("declared types of the C functions", "tsfile-writer-c/rust.py")],
  (), ["files on disk", "exceptions"], None)

p("C25", "The two ends of the sync service understand each other",
  "Every call made with the client of the sync service reaches exactly one handler of its receiving side exactly once, the one of the method called, with the argument values given (fields of the confirmation that are not set arrive with their defaults), and returns exactly the status the handler returned, or an application error with the kind and message of the application error it returned, or some application error for any other error; an error of one call does not disturb the following calls on the connection. A call that cannot be sent completely, or whose answer cannot be read, returns an error. A message whose method is unknown, that lacks an argument or ends early calls no handler, and an answer that lacks the status or one of its fields, ends early, or belongs to another call is never taken for a status. Fields that are not known are skipped on both sides, whatever their type, number and position.",
  ["inputs", "histories"],
  "all sequences of calls and results over one connection; all argument and result values; all forms in which another implementation may send a message: order of fields, unknown and missing fields, truncation at every byte; every request to the transport failing",
  "The protocol module has no tests.",
  [S+"sync.rs"],
  [("client calls", S+"sync.rs TSyncServiceSyncClient"), ("dispatch and answers", S+"sync.rs SyncServiceSyncProcessor"), ("structures", S+"sync.rs read_from_in_protocol, write_to_out_protocol")],
  (), ["calls of the handler", "results of calls", "bytes of requests and answers"], "cfg(tsfile_verif): exposes the private protocol module")

p("C26", "What is closed, freed or dropped is given back",
  "When a writer is dropped, or closed through the C interface or the Python classes, a schema is dropped or freed, or a sender is dropped, everything it held is given back: its file or connection is closed and its memory is freed, whatever happened before, including refused calls, failed writes, failed openings, a full disk, refused or broken handshakes and transfers. Repeating any history any number of times therefore leaves the process with no more memory, open files or connections than before, and starting a sender leaves no file behind but the one with its identity.",
  ["histories", "fault_sequences"],
  "all sequences of calls, valid and refused, on writers of all types over memory and files; all legal sequences of calls of the C interface and programs over the Python classes; every kind of answer of a receiver at every step of a transfer; every write failing; each of them repeated",
  "No test looks at what the process holds after a writer, schema or sender is gone.",
  ["tsfile-writer-c/src/lib.rs", "tsfile-writer-c/rust.py", W+"tsfile_writer.rs", S+"sync_sender.rs"],
  [("ownership over the C interface", "tsfile-writer-c/src/lib.rs schema_free, file_writer_new, file_writer_close"), ("the file of a writer", W+"tsfile_writer.rs"), ("connection and temporary identity file", S+"sync_sender.rs")],
  (), ["memory held", "open descriptors", "files in the working directory"], "cfg(tsfile_verif): writers over a sink in memory")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
