#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Streamed reading delivers exactly the stored elements, once and in order",
  "For every well-formed PBF stream, however the source splits, buffers or interrupts its reads (short reads, single-byte reads, interrupted calls), sequential reading delivers every stored element exactly once, in stored order, and nothing else. Ids, tags, coordinates, references, members, metadata, string tables and file-header fields read back through the public accessors equal the stored values (a metadata column that the file leaves out reads as the format's default), through every iteration interface (element reader, blob reader, block and group iterators). A reader that opens a path behaves like one that wraps an in-memory stream.",
  ["inputs", "schedules", "fault_sequences"],
  "every well-formed file (any mix of compressed/uncompressed blobs, unknown blobs, dense and plain nodes, ways, relations) x every way a source may legally deliver its bytes",
  "The tests read five tiny files from the local disk with whole-buffer reads: no short read, no interruption, no file with more than two data blobs, no negative ids, offsets, custom granularity, unknown blobs or mixed groups.",
  ["src/blob.rs", "src/reader.rs", "src/block.rs", "src/dense.rs", "src/elements.rs"],
  [("blob framing: length prefix, header, bounded body", "BlobReader::read_blob_header, BlobReader::next"),
   ("block iteration and delta decoding", "BlockElementsIter::step, DenseNodeIter::next, WayRefIter::next, RelMemberIter::next")],
  [("reader offset/flag", "position in the stream and whether iteration may go on", "BlobReader")],
  ["ElementReader::for_each callback", "BlobReader iteration + Blob::decode"])

p("C02", "A failing or truncated source is reported, never taken for the end of data",
  "If the source fails with an I/O error (other than an interrupted call, which is retried) or ends anywhere but at a blob boundary, sequential reading returns an error; it succeeds only if the source ended cleanly at a blob boundary. The elements delivered before the error are exactly those of the blobs completely read before the failure, in order. Blob iteration ends after it has reported an error, and nothing is delivered afterwards.",
  ["fault_sequences", "crash_points", "inputs"],
  "every byte position at which a source can fail or be cut off x every I/O error kind x every file",
  "No test injects an I/O error and no test reads a truncated file; the number of cut positions and error kinds per file is far beyond sampling by hand.",
  ["src/blob.rs", "src/reader.rs", "src/error.rs"],
  [("error paths of the framing code", "BlobReader::read_blob_header, BlobReader::next"),
   ("iteration stops after an error", "BlobReader::last_blob_ok"), ("error propagation", "ElementReader::for_each")],
  [("last_blob_ok", "false once an error has been reported", "BlobReader")],
  ["ElementReader::for_each result and callbacks", "BlobReader iteration"])

p("C03", "Damage to a compressed payload is detected and contained",
  "If bytes of the compressed payload of a blob are altered, zeroed, cut off or exchanged in storage, decoding that blob either fails or yields exactly the original content; altered, partial or extra content is never delivered. Every other blob of the same file still decodes to its stored content, and sequential element reading delivers all blobs before the damaged one and then the error.",
  ["fault_sequences", "inputs"],
  "every storage fault (bit flips, zeroed or swapped sectors, torn tails) inside every compressed payload",
  "No test decodes a damaged file.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/reader.rs"],
  [("zlib decoding with checksum, whole-message parsing before delivery", "blob::decode_blob")], (),
  ["Blob::decode, Blob::to_primitiveblock, MmapBlob::decode"])

p("C04", "No stored bytes can make a reader panic, hang or run away",
  "For any bytes whatsoever, every reader (sequential, blob header scan, indexed, memory-mapped, parallel) and every accessor of what it yields finishes after a number of steps and results bounded by the size of the uncompressed input, returning values or errors. It never panics or aborts, never loops forever and never yields an endless sequence of results.",
  ["inputs", "fault_sequences"],
  "every damaged or hostile file: arbitrary bytes, and well-formed files with arbitrary bits flipped, fields (lengths included) overwritten, ranges cut, zeroed, repeated or exchanged",
  "The tests read only well-formed files.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/indexed.rs", "src/block.rs", "src/dense.rs", "src/elements.rs", "src/reader.rs"],
  [("length validation", "BlobReader::read_blob_header, MmapBlobReader::next"), ("checked table lookups", "block::str_from_stringtable"),
   ("bounded slices", "DenseNodeIter::next")], (), ["all public readers and accessors"])

p("C05", "Reported blob offsets are true, and reading there returns the same blob",
  "Whatever sequence of reading, header-skipping, seeking, re-reading and cloning a caller performs, with or without transient I/O and seek errors in between, a blob offset that is reported is the byte position at which that blob starts in the source. Reading at a reported offset returns that same blob and leaves the reader at the start of the next one. On a seekable or path-based reader an offset is always reported as long as no error has occurred since it was opened or last repositioned.",
  ["histories", "fault_sequences", "inputs"],
  "every history of next / next_header_skip_blob / seek / seek_raw / blob_from_offset / clone calls x transient faults at any call",
  "Doc tests call seek once on a two-blob file; no history, no fault, no clone.",
  ["src/blob.rs", "src/mmap_blob.rs"],
  [("offset bookkeeping", "BlobReader::offset in read_blob_header, next, seek, seek_raw, next_header_skip_blob"), ("", "MmapBlobReader::seek, MmapBlobReader::next")],
  [("offset", "current byte offset, None when unknown", "BlobReader")], ["Blob::offset, next_header_skip_blob, MmapBlob::offset"])

p("C06", "After an error a blob reader stays stopped until repositioned, then recovers",
  "Once a blob reader has reported an error from reading, further iteration yields nothing (it never resumes in the middle of a blob), until the caller successfully repositions it. After a successful seek to the start of a blob, or a read at a blob's offset, reading works again and delivers that blob and the ones after it, provided the source no longer fails.",
  ["histories", "fault_sequences"],
  "every history of reads and seeks with transient faults at any point, followed by a fault-free suffix",
  "No test makes a read fail, so neither the stopped state nor the recovery is ever entered.",
  ["src/blob.rs", "src/mmap_blob.rs"],
  [("stop flag", "BlobReader::last_blob_ok, MmapBlobReader::last_blob_ok"), ("seek", "BlobReader::seek, seek_raw, blob_from_offset, MmapBlobReader::seek")],
  [("last_blob_ok", "false after an error", "BlobReader, MmapBlobReader")], ["return values of the blob readers"])

p("C07", "Memory-mapped and streamed reading agree",
  "For any file, intact, truncated or damaged, iterating over a memory map yields the same blobs as streaming it: same number, types, offsets and decoded content (or decode error), up to the first framing error, and both report an error or both end cleanly. After a framing error both iterations end.",
  ["inputs", "fault_sequences"],
  "every file x every truncation point and every storage fault",
  "The tests read three intact two-blob files through the map and never compare the two readers on anything else.",
  ["src/mmap_blob.rs", "src/blob.rs"],
  [("parallel implementations of the framing rules", "MmapBlobReader::next vs BlobReader::next"), ("decode", "MmapBlob::decode vs Blob::decode")], (),
  ["MmapBlobReader, BlobReader"])

p("C08", "Parallel map-reduce equals the sequential result under every schedule",
  "For every readable file, every thread-pool size and every interleaving of the worker threads, the parallel map-reduce calls the map operation exactly once for each stored element, sees the same element content as sequential reading, and returns the reduction of all the mapped values and nothing else (for an associative, commutative reduction with its identity). It always returns, also when several calls share one pool, whatever the delivery behaviour of the source.",
  ["schedules", "configurations", "inputs"],
  "every interleaving of worker threads x pool sizes x files (also without any data blob) x concurrent calls",
  "One test counts five elements of a file with a single data blob on whatever schedule the machine happens to produce.",
  ["src/reader.rs", "src/blob.rs"],
  [("par_bridge over the blob iterator, per-blob fold, reduce", "ElementReader::par_map_reduce")], (), ["ElementReader::par_map_reduce"])

p("C09", "Parallel map-reduce never hides a failure and never hangs on one",
  "Under every schedule, the parallel map-reduce returns an error whenever sequential reading of the same source would (source failure, truncation, undecodable blob), and the error is one that really occurred; it never returns a partial result as success. Elements are mapped at most once, only from blobs completely read before a source failure and never from an undecodable blob. A panic in a caller's closure reaches the caller; no failure leaves the call blocked.",
  ["schedules", "fault_sequences"],
  "every interleaving x every failure position and kind (I/O error, truncation, undecodable blobs, panicking closures)",
  "No test runs the parallel reader on a failing source, a damaged blob or a panicking closure.",
  ["src/reader.rs", "src/blob.rs"],
  [("error merging in map and reduce", "ElementReader::par_map_reduce"), ("iteration stops after an error", "BlobReader::last_blob_ok")], (),
  ["ElementReader::par_map_reduce"])

p("C10", "Indexed queries are exact, whatever was asked before",
  "Every node traversal of an indexed reader delivers every stored node exactly once and in stored order, and nothing else. Every way query asks the filter exactly once about every stored way, delivers each accepted way exactly once and every stored node whose id is referenced by an accepted way exactly once, in stored order, and nothing else. The answer does not depend on which queries, with which filters, were made on the reader before.",
  ["histories", "inputs"],
  "every history of create_index / for_each_node / read_ways_and_deps calls with arbitrary filters x every file (ids unsorted, negative, repeated; elements of all kinds spread over blobs and groups in any order)",
  "One test and two doc tests ask one question of a fresh reader on a file with a single data blob, so that neither the index nor the id ranges it caches ever decide anything.",
  ["src/indexed.rs"],
  [("id-range cache used to skip blobs", "IndexedReader::update_element_id_ranges, BlobInfo::node_range_included, ways_available, nodes_available")],
  [("index", "blob offsets, types and cached id ranges", "IndexedReader::index")], ["callbacks of for_each_node and read_ways_and_deps"])

p("C11", "An indexed reader answers completely or fails, and recovers after faults",
  "An indexed query that succeeds has delivered its complete answer, no matter which earlier calls on the reader were broken off by I/O errors, seek errors or panicking callbacks, at whatever point. A query hit by a source failure returns an error, and what it delivered until then is a prefix of the complete answer. Once the source works again, repeating the query succeeds.",
  ["histories", "fault_sequences", "crash_points"],
  "every history of indexed calls x faults at any read or seek of any call x callbacks panicking at any invocation",
  "No test makes an indexed call fail.",
  ["src/indexed.rs", "src/blob.rs"],
  [("index construction", "IndexedReader::create_index"), ("id-range cache", "IndexedReader::update_element_id_ranges"), ("recovery by seeking", "BlobReader::blob_from_offset")],
  [("index", "must never be observable half-built", "IndexedReader::index")], ["results and callbacks of the IndexedReader methods"])

p("C12", "Size limits are enforced exactly, before resources are spent",
  "A blob header of 64 KiB or more is rejected after reading nothing but its length prefix, and a block whose uncompressed size is 32 MiB or more is rejected with an error and delivers nothing, whatever its compressed size or declared lengths; sizes just below either limit are accepted and delivered completely. Rejecting an oversized, lying or decompression-bomb blob never buffers more than a small multiple of the limit, and a lying header length or blob size never more than a small multiple of what the source really delivers.",
  ["inputs", "fault_sequences"],
  "every size around the limits x compressed and uncompressed x stream and memory map x every lying length field",
  "The test files are a few hundred bytes; no test reaches a limit.",
  ["src/blob.rs", "src/mmap_blob.rs"],
  [("header limit", "MAX_BLOB_HEADER_SIZE in read_blob_header, MmapBlobReader::next"), ("message limit", "MAX_BLOB_MESSAGE_SIZE in decode_blob")], (),
  ["Blob::decode, BlobReader::next, MmapBlobReader::next, allocator"])

p("C13", "Reading takes exactly the blob and waits for nothing beyond it",
  "When a blob reader over an unbuffered source returns a blob, it has consumed exactly the bytes up to the end of that blob, however the source chunks them, so a source that stalls right there has not held the blob back; sequential element reading hands out all elements of a blob before it asks the source for a byte after it. Skipping a blob by its header reads only the length prefix and the header and leaves the source at the start of the next blob, and building an index reads no blob body.",
  ["schedules", "fault_sequences", "inputs"],
  "every chunking x a stall at every blob boundary x every file",
  "The tests wrap files in a buffered reader and never look at the source's cursor; no source ever stalls.",
  ["src/blob.rs", "src/reader.rs", "src/indexed.rs"],
  [("bounded sub-readers", "take(header_size), take(datasize) in BlobReader"), ("skip by seeking", "BlobReader::next_header_skip_blob")], (),
  ["the source's cursor and read calls"])

p("C14", "Decoding a blob depends on nothing but that blob",
  "Decoding the same blob any number of times, in any order among other blobs (of the same or other files, intact or undecodable, streamed or memory-mapped), from any number of threads in any interleaving, always gives the same content or failure as decoding it alone. Iterators over decoded blocks that are advanced in turns, or from several threads, do not influence each other, and a cloned reader, blob or iterator continues independently of its original.",
  ["schedules", "histories"],
  "every interleaving and order of decodes and partial iterations over shared blobs, with undecodable ones among them",
  "The tests decode each blob once, on one thread, in file order.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/block.rs", "src/dense.rs", "src/elements.rs"],
  [("no shared state in decoding", "decode_blob, Blob::decode, MmapBlob::decode"), ("iterators own their cursors", "BlockElementsIter, DenseNodeIter, ...")], (),
  ["Blob::decode from several threads"])

p("C15", "Failing system calls surface as that I/O error and leak nothing",
  "If opening, positioning or mapping a file fails, the constructor that was asked returns an I/O error carrying the operating system's error and no reader; interrupted opens are retried. Whatever fails, at opening or later, every file descriptor and mapping a reader created is released by the time the reader and what was borrowed from it are gone.",
  ["fault_sequences", "configurations"],
  "every path-based and seekable constructor x every failing system call (open, seek, map, stat, read) and error number",
  "No test opens anything that fails to open, and nothing observes descriptors.",
  ["src/blob.rs", "src/reader.rs", "src/indexed.rs", "src/mmap_blob.rs", "src/error.rs"],
  [("From<io::Error> and ?", "BlobReader::from_path, seekable_from_path, new_seekable, ElementReader::from_path, IndexedReader::new/from_path, Mmap::from_file/from_path")], (),
  ["constructor results, open/close/mmap/munmap calls"])

p("C19", "Parallel processing streams and really works in parallel",
  "While par_map_reduce runs, the number of blobs that have been taken from the source and not been worked off stays bounded by the size of the thread pool (a small multiple plus a constant), not by the length of the file, whatever the schedule and however slow source, decoding and callbacks are. In an otherwise idle pool of two or more threads, decoding and callbacks of different blobs overlap, so that the time a call takes shrinks with the number of threads; only reading from the source is one after the other.",
  ["schedules", "inputs", "configurations"],
  "every schedule x pool size x file length x cost of reading, decoding and callbacks",
  "The tests use files of two data blobs, far fewer than could be read ahead, and look at the result only, never at what runs when.",
  ["src/reader.rs", "src/blob.rs"],
  [("the blob iterator is bridged, blobs are decoded in the mapping stage", "ElementReader::par_map_reduce")], (),
  ["source reads and callbacks of par_map_reduce on a simulated clock"])

p("C20", "Memory does not grow with the amount of data read, and nothing stays behind",
  "Between two blobs a reader keeps only a bounded amount of memory (an index may keep a small constant per blob), however long the file is, and however often the same reader is asked, repositioned or has met errors. When a reader, an iterator or a call is done, whether it succeeded, met damaged blobs or a failing source, or a callback panicked, everything it allocated is released, so that repeating it any number of times does not take more memory.",
  ["histories", "fault_sequences", "inputs"],
  "every kind of reader x long files x repetition x failures and panics on the way",
  "The tests read five tiny files once each and never look at memory.",
  ["src/blob.rs", "src/reader.rs", "src/indexed.rs", "src/mmap_blob.rs", "src/block.rs"],
  [("blobs and blocks are owned and dropped", "BlobReader::next, Blob::decode, decode_blob, IndexedReader, MmapBlobReader::next")], (),
  ["live heap between passes and along a file"])

p("C21", "An index saves reading: later queries touch only what can contribute",
  "No query of an indexed reader reads the body of a blob more often than once for the ways and once for the nodes. Once a query for nodes or ways has succeeded, later queries on the same reader read nothing of blobs that cannot contribute: for_each_node reads only blobs with nodes, and read_ways_and_deps only blobs with ways and blobs in whose range of node ids a referenced id lies; creating the index again reads nothing. After a query that failed this holds again from the next successful one.",
  ["histories", "fault_sequences", "inputs"],
  "every history of index, node and way queries, with transient failures, on one reader over every file",
  "The tests ask at most two queries on files of two data blobs and look at the answer only, not at what was read.",
  ["src/indexed.rs", "src/blob.rs"],
  [("what is known of each blob", "BlobInfo, update_element_id_ranges, node_range_included, ways_available, nodes_available")],
  [("index entry", "offset, type and id ranges of a blob", "IndexedReader::index")],
  ["the source's read and seek calls during a query"])

# Pure functions: stated for completeness, not claimed.
p("C16", "Coordinate and timestamp arithmetic follows the format's definition",
  "Coordinates in degrees, nanodegrees and decimicrodegrees, and timestamps in milliseconds, are the stored integers scaled by the block's granularities and shifted by its offsets, exactly in the integer forms and to double precision in degrees.",
  ["inputs"], "every stored integer, granularity and offset",
  "The tests use the default granularity and offsets only.",
  ["src/elements.rs", "src/dense.rs", "src/block.rs"],
  [("scaling", "nano_lat/nano_lon/decimicro_*/milli_timestamp")])
p("C17", "Iterator lengths announced equal the items that follow",
  "For well-formed blocks, the exact length every iterator announces equals the number of items it goes on to yield, at every point of the iteration.",
  ["inputs"], "every well-formed block and every position of every iterator",
  "No test calls len or size_hint.",
  ["src/block.rs", "src/dense.rs", "src/elements.rs"], [("size_hint", "ExactSizeIterator implementations")])
p("C18", "Errors convert to standard errors without losing their cause",
  "Converting a library error to a standard I/O error keeps the original error reachable, and every error's display text and source describe the kind, location and index it carries.",
  ["inputs"], "every error kind and payload",
  "No test formats or converts an error.",
  ["src/error.rs"], [("Display, Error::cause, From<Error> for io::Error", "src/error.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
