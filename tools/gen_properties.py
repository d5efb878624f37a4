#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Round trip: what was saved is what loads, under every schedule",
 "If a save or write reports success, loading the produced file or bytes yields a value equal to the one saved. This holds for every supported data shape and size, every interleaving of the writer's and reader's worker threads, every worker-pool size, every CPU count at writing and at reading, every hash-map iteration order, and every compression setting the build supports.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of writer/reader worker threads; pool sizes; CPU counts (which decide vector sharding); hash seeds; values from empty to many shards; compression on/off/per field",
 "Tests run a handful of values on the machine's own pool and CPU count under whatever schedule the OS gives; a lost child slot, a wrong shard offset or a race between sibling chunks shows up only for particular orders, sizes and CPU counts.",
 ["src/executor.rs", "src/graph/core.rs", "src/io.rs", "src/visitor_impls.rs", "src/reader.rs", "src/map.rs", "src/compression.rs", "parcode-derive/src/lib.rs"],
 [("dependency-counted bottom-up execution; last child schedules the parent", "src/executor.rs: process_node"),
  ("per-child result slot in the parent", "src/graph/core.rs: link_parent_child, register_child_result"),
  ("RLE shard table and disjoint destination ranges", "src/visitor_impls.rs: Vec::visit; src/reader.rs: decode_parallel_collection")],
 [("completed_children", "child references in field/shard order", "src/graph/core.rs: Node"),
  ("current_offset", "offset handed to the next chunk", "src/io.rs: WriterState")],
 ["Parcode::save/write/serialize + Parcode::load/load_bytes/open"])

prop("C02", "Every write path stores the same logical content",
 "Parallel and synchronous writing, to a file, to memory or to any other writer, of one value with the same options store the same logical content: the same tree of chunks with the same payloads, compression and child order, differing only in where chunks are placed (and in entry order of hash maps across processes). The synchronous path produces byte-identical output for the same value every time. Which path and how many workers wrote a file is never observable by a reader.",
 ["schedules", "configurations", "inputs"],
 "all interleavings and pool sizes of the parallel writer, compared with the synchronous writer, over generated values and compression settings",
 "The tests compare one parallel and one sync output on a few values; agreement for every order in which workers finish, and for every option mix, is not sampled.",
 ["src/executor.rs", "src/api.rs", "src/compression.rs", "src/graph/core.rs"],
 [("two executors over one task graph", "src/executor.rs: execute_graph_parallel, execute_graph_serial"),
  ("same compression selection", "src/executor.rs; src/compression.rs: CompressorRegistry")],
 (), ["bytes given to the writer"])

prop("C03", "Output layout: chunks tile the file, children first, header last",
 "Every successful write produces, whatever the interleaving, exactly one sequence of non-overlapping chunks that covers the output from its first byte up to a single 26-byte trailer, with nothing left over. Every chunk except the root is referenced exactly once, always by a chunk that lies after it; the root is the last chunk and the trailer describes it. Each parent lists its children in the order of the data they hold.",
 ["schedules", "inputs", "configurations"],
 "all interleavings of the chunk-writing workers, for every generated graph shape and write path",
 "No existing test parses the file as a whole; a race that writes a chunk twice, leaves a gap or stores a stale offset passes a test whose schedule does not trigger it.",
 ["src/executor.rs", "src/io.rs", "src/format.rs", "src/api.rs", "src/graph/core.rs"],
 [("offset assignment and append under one lock", "src/io.rs: SeqWriter::write_all"),
  ("parent executed only after all children were written", "src/executor.rs: process_node"),
  ("trailer written after the graph", "src/api.rs: ParcodeOptions::write/write_sync")],
 (), ["bytes given to the writer"])

prop("C04", "A write that reports success is complete; a failed write is reported",
 "Whatever error the destination returns, at whatever write or flush and however late (including when buffered data are finally flushed, and when the disk fills up), a save or write whose bytes did not all reach the destination returns an error. A save that returns success has handed over every byte, so the file loads to the saved value. The call neither panics nor hangs because of the error, for every schedule.",
 ["fault_sequences", "schedules", "inputs"],
 "every position and kind of write/flush/open failure (ENOSPC, EIO, zero-length write, failing flush, failing open) under every schedule and write path",
 "No test injects an I/O error; the 16 MiB buffer means nearly all errors appear only at the final flush, which tests never make fail.",
 ["src/io.rs", "src/executor.rs", "src/api.rs"],
 [("explicit flush before success", "src/api.rs: write/write_sync; src/io.rs: flush"),
  ("first error captured and abort flag", "src/executor.rs: signal_error, should_abort")],
 [("abort_flag/error_capture", "failure state shared by workers", "src/executor.rs: ExecutionContext")],
 ["return value of save/write; bytes at the destination"])

prop("C05", "Transient I/O conditions are invisible",
 "Interrupted system calls and short writes or reads at any point of saving, and of opening and loading, change nothing: the operation still succeeds and the bytes on disk and the loaded value are exactly those of an undisturbed run.",
 ["fault_sequences", "schedules"],
 "every placement and number of EINTR results and partial transfers among the I/O calls of a save, open and load",
 "Local files in tests never return EINTR or short counts, so the retry paths never run.",
 ["src/io.rs", "src/api.rs", "src/reader.rs"],
 [("write_all/flush retry loops over the destination", "src/io.rs: SeqWriter"),
  ("read_to_end in builds without memory mapping", "src/reader.rs: ParcodeFile::open")],
 (), ["bytes at the destination, loaded value"])

prop("C06", "A failing or panicking piece of the object graph is contained",
 "If serialising any part of the value fails, or panics, the write as a whole returns that error, or unwinds with that panic, after all its workers have stopped; it never reports success and never leaves output that opens as a complete file. Afterwards the library, the thread pool and other values are still usable, and the first failure reported is a genuine one, not an artefact of the abort.",
 ["fault_sequences", "schedules", "histories"],
 "any subset of graph nodes failing or panicking, any interleaving with the remaining workers, any following operations",
 "No test has a failing or panicking job; what sibling tasks do after the failure depends on the schedule.",
 ["src/executor.rs", "src/graph/core.rs", "src/io.rs", "src/api.rs"],
 [("abort flag checked by every task; first error wins", "src/executor.rs"),
  ("scope join before the result is inspected", "src/executor.rs: execute_graph_parallel"),
  ("poisoned locks mapped to errors", "src/io.rs, src/graph/core.rs")],
 (), ["return value/panic of write; destination bytes; follow-up operations"])

prop("C07", "A crash during saving never yields a wrong value",
 "If the process dies at any instant while saving, the file is either still untouched, or rejected as an invalid file when opened or read, or the complete new value; what had reached it never loads as a different value. This holds for a new path and for a path that held an older file, whatever the sizes of the two, for every write path and schedule.",
 ["crash_points", "schedules", "histories"],
 "every prefix of the file-system effects of a save, including every torn write, over generated values, previous contents and schedules (process crash: completed system calls survive)",
 "Tests never interrupt a save; only a crash at particular byte positions exposes a trailer that becomes valid too early or old bytes that survive.",
 ["src/api.rs", "src/io.rs", "src/format.rs", "src/reader.rs"],
 [("trailer is the last thing written", "src/api.rs: write, write_sync"),
  ("destination truncated on create", "src/api.rs: save, save_sync"),
  ("magic/version/bounds validation at open", "src/reader.rs: ParcodeFile::init, get_chunk")],
 (), ["file image after the crash, opened and read by a fresh process"])

prop("C08", "Histories of saves: a path always reads back its last successful save",
 "After any sequence of saves, failed saves, crashes, loads and deletions over several paths, loading a path whose last save succeeded yields exactly that save's value, untouched by operations on other paths and by the size or content of what the path held before. A path whose last save failed or crashed after it had opened the file yields an error or that save's complete value, never an older value or a mixture; one that failed before that leaves the path as it was.",
 ["histories", "fault_sequences", "crash_points"],
 "all operation sequences over a small set of paths with shrinking and growing values and injected failures between and inside saves",
 "Tests save once per temporary file; leftovers of a longer or failed previous file only matter on reuse.",
 ["src/api.rs", "src/io.rs", "src/reader.rs"],
 [("File::create truncation", "src/api.rs: save, save_sync"), ("trailer-at-end addressing", "src/reader.rs: init")],
 (), ["Parcode::load after each step"])

prop("C09", "Every operation terminates",
 "Every write, save, load, lookup, iteration and inspection finishes, with a result or an error, in a bounded number of steps under every fair schedule: with one worker, with more workers than tasks, when called from inside a worker of the same pool, when many threads call concurrently, and when parts of the value fail or panic. There is no deadlock, lost wake-up or livelock.",
 ["schedules", "configurations", "fault_sequences"],
 "all interleavings and pool sizes; nesting inside pool workers; concurrent callers; failing tasks",
 "Tests call from the main thread into the default pool; deadlocks appear only for particular pool sizes, nesting and timing.",
 ["src/executor.rs", "src/io.rs", "src/graph/core.rs", "src/reader.rs"],
 [("scope-based task spawning, no blocking waits inside tasks", "src/executor.rs"),
  ("locks held only across one append", "src/io.rs"), ("iterators bounded by shard tables", "src/reader.rs, src/rt.rs")],
 (), ["completion of the call in the simulator"])

prop("C10", "Concurrent operations do not affect each other",
 "Any number of threads may at the same time write different values to different destinations, write the same value to several destinations, and read eagerly or lazily through one shared open file; every operation gives exactly the result it would give alone, for every interleaving, whether the threads share a worker pool or not. If one of the concurrent operations fails, panics or reads damaged data, the others are unaffected.",
 ["schedules", "fault_sequences"],
 "all interleavings of several client threads and the pool workers that serve them, with failures injected into some clients",
 "Tests are single-client; cross-talk between concurrent operations needs particular interleavings.",
 ["src/executor.rs", "src/api.rs", "src/reader.rs", "src/graph/core.rs", "src/io.rs"],
 [("all state per call", "src/api.rs, src/executor.rs: ExecutionContext"),
  ("readers share only immutable bytes", "src/reader.rs: DataSource, ParcodeFile")],
 (), ["per-client results"])

prop("C11", "Lazy vector access agrees with the vector",
 "For a stored vector of any length, shard layout and element shape, however it was written and however many threads read it at once: length, emptiness, element access at every index, streaming iteration, and (for vectors of structures) lazy first, last, element access and lazy iteration agree with the original vector, element by element and in order, and iterators report their exact remaining length. Access outside the vector reports an error or absence and never another element.",
 ["inputs", "schedules", "configurations"],
 "all vector lengths, element sizes, CPU counts at write time (shard layouts), indices around shard boundaries, concurrent readers",
 "Tests use a few lengths with the layout of one machine; boundaries between shards move with CPU count and element size.",
 ["src/reader.rs", "src/rt.rs", "src/visitor_impls.rs", "parcode-derive/src/lib.rs"],
 [("RLE index resolution", "src/reader.rs: resolve_rle_index, get, locate_shard_item"),
  ("shard-by-shard iterators", "src/reader.rs: ChunkIterator; src/rt.rs: ParcodeLazyIterator")],
 (), ["ParcodeCollectionPromise, ParcodeLazyIterator, ChunkIterator results"])

prop("C12", "Stored maps behave like the original map",
 "For a stored hash map of any size, single-chunk or hash-sharded, however it was written and in whatever iteration order: looking up every key that was stored returns its value (fully or as a lazy view), looking up any other key returns absence, and loading returns exactly the stored entries. This includes empty maps, keys whose hashes collide fully or in part, and lookups from many threads at once.",
 ["inputs", "schedules", "configurations"],
 "all key sets and sizes (0 entries to many buckets), hash collisions, hash seeds that fix iteration order, concurrent readers",
 "Tests look up a few keys in one map with no collisions and never an empty map.",
 ["src/visitor_impls.rs", "src/map.rs", "src/rt.rs", "src/reader.rs"],
 [("same hash and modulus at write and read", "src/visitor_impls.rs: HashMap::visit; src/rt.rs: get, get_lazy; src/map.rs: hash_key"),
  ("stored key compared on hash match", "src/rt.rs")],
 (), ["ParcodeMapPromise::get/get_lazy/load, HashMap::from_node"])

prop("C13", "The lazy mirror shows the same data as full loading",
 "For every structure with nested chunked fields, navigating the lazy view (directly, through vector elements and map entries, to any depth) shows inline fields equal to the original and promises that load exactly the corresponding parts, each promise any number of times and in any order, from one or several threads. Mixing lazy and eager reads of one open file never changes what either returns.",
 ["inputs", "schedules", "histories"],
 "all nesting shapes, any order and interleaving of promise loads from several threads over one open file",
 "Tests navigate a fixed path once on one thread.",
 ["src/rt.rs", "src/reader.rs", "parcode-derive/src/lib.rs"],
 [("mirror generated from the same field split as the serializer", "parcode-derive/src/lib.rs: generate_lazy_mirror"),
  ("children consumed in order while skipping elements", "src/rt.rs: get_lazy, ParcodeLazyIterator; map get_lazy")],
 (), ["mirror fields, promise loads"])

prop("C14", "Damaged files never crash, hang or exhaust the reader",
 "Opening, inspecting, loading, looking up or iterating a file that the library wrote and storage then damaged in any way - flipped, zeroed, swapped or stale bytes, missing or repeated ranges, truncation, appended garbage, anywhere including trailer and tables - returns a result or an error. It never panics, aborts, recurses or loops without bound, allocates memory out of proportion to the file, or touches memory it does not own.",
 ["fault_sequences", "inputs"],
 "every sequence of storage faults applied to every library-produced file, every reading operation, every type the file is read as",
 "Tests contain a few hand-made corrupt headers; the reader's arithmetic on offsets, counts and lengths has to hold for every damaged value.",
 ["src/reader.rs", "src/rt.rs", "src/compression.rs", "src/inspector.rs", "src/format.rs", "parcode-derive/src/lib.rs"],
 [("bounds checks on every chunk and table", "src/reader.rs: get_chunk, get_child_by_index, read_raw"),
  ("count validation before allocation", "src/reader.rs: read_slice_from_shard, decode_parallel_collection")],
 (), ["result, panic, abort, step count and memory of each reading operation"])

prop("C15", "Reads depend only on the chunks they need",
 "Damage confined to the payload of some leaf chunks changes only the reads that need those chunks. Opening the file, navigating the lazy view, reading inline fields, and reading elements, entries or fields stored in other chunks still return exactly the original data, and memory is spent only on what is read.",
 ["fault_sequences", "schedules"],
 "every subset of leaf payloads damaged, every reading operation that does not need them, in any order and from several threads",
 "Tests never damage a file part and read another; a reader that eagerly decodes a sibling chunk passes every test on an intact file.",
 ["src/reader.rs", "src/rt.rs", "parcode-derive/src/lib.rs", "src/inspector.rs"],
 [("promises hold a chunk handle and decode on demand", "src/rt.rs"),
  ("element access decodes a single shard", "src/reader.rs: get, locate_shard_item")],
 (), ["results of reads on a damaged image"])

prop("C16", "Element ownership is exact in parallel reconstruction",
 "When a vector is rebuilt by several workers, every element ends up in the result exactly once: nothing is dropped twice, dropped without having been created, leaked from a successful load, or exposed uninitialised, for every interleaving. When some shard fails to decode, or decoding an element panics, the load fails and no element is dropped more than once and no slot that was never filled is dropped or read.",
 ["schedules", "fault_sequences"],
 "all interleavings of shard decoders, any subset of shards failing or panicking, at any element",
 "One miri test decodes a healthy vector on one schedule; failing shards next to running ones need fault injection and schedule control.",
 ["src/reader.rs"],
 [("disjoint uninitialised destination slices", "src/reader.rs: decode_parallel_collection, decode_shard_into_buffer"),
  ("ownership taken only after all shards succeeded", "src/reader.rs: Vec::from_raw_parts")],
 (), ["construction/drop accounting of elements"])

prop("C17", "Failures while opening and reading files are reported as errors",
 "If opening, sizing, mapping or reading the file fails at any point, or the file is shorter than it should be (empty, cut off anywhere, or still being written), opening or loading returns an error; it never panics and never returns a value built from partial data. The same file object or path works normally once the fault is gone.",
 ["fault_sequences", "crash_points", "configurations"],
 "every failing system call of open/load (open, metadata, mmap, read), every cut-off length, in builds with and without memory mapping",
 "Tests read healthy files through mmap only; the read-into-memory path and failing calls are never exercised.",
 ["src/reader.rs", "src/api.rs"],
 [("error propagation in open", "src/reader.rs: ParcodeFile::open, init")],
 (), ["result of open/load"])

prop("C18", "Lazy access works within memory proportional to what is read",
 "On a machine whose free memory is far smaller than the file, opening a memory-mapped file, navigating its lazy view, reading inline fields, looking up single map entries or vector elements, and streaming through a vector still succeed with correct results: the memory these operations need is bounded by the structure tables and the single shard being read, not by the file or collection size.",
 ["fault_sequences", "configurations"],
 "memory limits imposed while lazily reading generated files of growing size",
 "No test limits memory; an implementation that loads everything and returns the requested part passes every test.",
 ["src/reader.rs", "src/rt.rs"],
 [("memory-mapped source, borrowed payloads", "src/reader.rs: DataSource, read_raw"),
  ("one shard decoded at a time", "src/reader.rs: get, ChunkIterator; src/rt.rs: ParcodeLazyIterator")],
 (), ["peak allocation of each lazy operation"])

prop("C19", "Files are portable across builds and machines",
 "A file written by a build with any feature set (parallel or not, memory mapping or not, compression available but not used by the file or used by both) on a machine with any number of CPUs is read by every other build and machine to the same value, eagerly and lazily. Reading a chunk whose compression the build lacks reports an error.",
 ["configurations", "schedules"],
 "pairs of writer and reader builds, CPU counts and pool sizes, over generated values and compression settings",
 "Tests run one feature set per invocation and read with the build that wrote.",
 ["src/executor.rs", "src/reader.rs", "src/compression.rs", "src/visitor_impls.rs", "src/format.rs"],
 [("same on-disk format from both executors", "src/executor.rs"), ("layout tables stored in the file", "src/visitor_impls.rs: VecContainerJob, MapContainerJob"),
  ("per-chunk compression id", "src/format.rs: MetaByte")],
 (), ["load in the other build"])

prop("C20", "The inspector reports the file's actual structure",
 "For every file the library wrote, under every schedule, inspecting it reports the true file size, root position and the full chunk tree in child order, with each chunk's real offset, total length, payload size, compression, number of children and, for vector and map containers, the true item, shard and bucket counts. Inspection succeeds without decoding leaf payloads, so damage confined to them does not change the report.",
 ["schedules", "inputs", "fault_sequences"],
 "all generated values, schedules and settings; leaf payload damage",
 "Tests check a few strings of one report.",
 ["src/inspector.rs", "src/reader.rs"],
 [("recursive walk over child references", "src/inspector.rs: inspect_node"), ("container recognition", "src/inspector.rs: analyze_payload")],
 (), ["DebugReport"])

prop("C21", "The stored format does not drift between releases",
 "Files written by the published 0.6.1 format (V4) stay readable by later revisions and files written by later revisions stay readable by 0.6.1 readers, byte layout included.",
 ["programs", "inputs"],
 "all files of the published format, read and written by any later revision of the code",
 "Tests write and read with the same revision, so a symmetric change of both sides passes.",
 ["src/format.rs", "src/visitor_impls.rs", "src/map.rs", "src/compression.rs"],
 [("fixed little-endian layout and version check", "src/format.rs")], (), ["bytes on disk"])

prop("C22", "The derive macro is correct for every structure definition",
 "For every structure definition the derive macro accepts, the generated serializer, reader, shard item and lazy mirror agree with each other on the split, order and naming of fields.",
 ["programs"],
 "all Rust structure definitions the macro accepts",
 "Tests derive a dozen structures; the space of definitions is a space of programs.",
 ["parcode-derive/src/lib.rs"],
 [("one field split shared by all generators", "parcode-derive/src/lib.rs: derive_parcode_object")], (), ["generated code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
