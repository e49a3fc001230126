"""Property texts; gen.py turns them into properties.jsonl and MANIFEST.json."""
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking", observe=None):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                 mechanism=mechanism, technique=technique, note=note, level=level, observe=observe or [])


SCHED_NOTE = ("Exhaustive within the stated bounds (threads, operations, preemptions) on the real code. Trusts the fibre scheduler: "
              "sequentially consistent interleavings at synchronisation operations, with data races reported by happens-before analysis.")
ENUM_NOTE = "Exhaustive over the stated bounded space, executed on the real code against an independent reference; nothing is claimed outside the bounds."

prop("C01", "Work queue is a linearizable bounded FIFO",
     "Any concurrent use of the work queue behaves like some sequential use of a first-in first-out queue that never holds more than its capacity: every item comes out exactly once, in order, unmodified, and results of the try operations and of the size query fit that order. A refused try_push leaves the item with its caller, a failed try_pop leaves the destination untouched, and no access to the queue is a data race.",
     ["schedules", "programs"], "for all small concurrent programs over the whole queue interface, all capacities and fillings, and all interleavings",
     "There is no test of the queue in the built suite; a test runs one interleaving that the OS happens to pick.",
     ["include/dottorrent/concurrent_queue.hpp"],
     [("mutex around every access and predicate waits on not_full/not_empty", "concurrent_queue push/pop/try_push/try_pop/size/set_capacity")],
     "stateless model checking of the real queue (preemption-bounded enumeration of all interleavings) with a linearizability check", SCHED_NOTE)
prop("C02", "Queue operations never wait for something that is available",
     "A thread blocked in the queue is blocked only because its operation is impossible: whenever an item is present some waiting consumer proceeds, and whenever there is room (also after the capacity was raised) some waiting producer proceeds. No wake-up is lost, whatever the interleaving and even with spurious wake-ups.",
     ["schedules", "programs"], "for all small concurrent programs, all interleavings and spurious wake-ups",
     "A lost wake-up shows only in particular interleavings as a hang; no test covers blocking operations.",
     ["include/dottorrent/concurrent_queue.hpp"],
     [("notify_all after every state change", "concurrent_queue::push, try_push, pop, try_pop, set_capacity")],
     "stateless model checking: every terminal state of every interleaving is checked against the sequential queue model", SCHED_NOTE)
prop("C03", "Object pool hands out exclusive objects, recycles and bounds them",
     "An object obtained from the pool belongs to its holders alone until the last handle is gone; only then is it recycled, exactly once, and handed out again. The pool never has more objects alive than its capacity, waits when all are in use and continues as soon as one returns, and handles stay valid, and are destroyed without leak, even when released after the pool was moved or destroyed. Clearing the pool destroys exactly the idle objects and makes room for new ones.",
     ["schedules", "histories"], "for all sequences of get, copy, release, clear, move and destroy, and all interleavings of a taking thread with releasing threads",
     "The built suite only compiles the header; exclusivity and the return path depend on thread timing and on the order of destruction.",
     ["include/dottorrent/object_pool.hpp"],
     [("shared_ptr with a returning deleter and a bounded queue of idle objects", "object_pool::get, make_sink and the deleter; recycle policy")],
     "exhaustive enumeration of operation sequences and stateless model checking of all interleavings (preemption-bounded) on the real pool", SCHED_NOTE)
prop("C04", "Worker pool processes each queued item exactly once and always ends",
     "After a stop request every item queued before it has been processed exactly once when wait returns, by one worker; after a cancellation no item is processed twice, and items still pending when it was requested are discarded unless a worker had already taken them. Nothing stays queued after wait, and started, running, done and cancelled report the actual state. Stopping, cancelling, waiting and destroying end for every queue capacity, number of workers and number of pending items, without a deadlock, an abort or a worker outliving its processor.",
     ["schedules", "histories"], "for all capacities, worker counts, item counts and ways of ending, and all interleavings",
     "There is no test; the failing situations need a full queue or a worker at a particular point when the end is requested.",
     ["include/dottorrent/concurrent_queue_processor.hpp", "include/dottorrent/concurrent_queue.hpp"],
     [("sentinel wake-ups, stop tokens and the drain loop", "concurrent_queue_processor::run, wait, request_stop, request_cancellation")],
     "stateless model checking of the real processor (preemption-bounded enumeration of all interleavings)", SCHED_NOTE)
prop("C27", "Hexadecimal encoding and decoding are exact inverses",
     "Encoding bytes yields exactly two lower-case hexadecimal digits per byte (an upper-case digit decodes the same), decoding returns exactly those bytes, and every text that is not an even-length string of hexadecimal digits of the expected size is rejected without reading outside it. Every overload and output iterator agrees.",
     ["inputs"], "for all byte strings and all character strings",
     "The two tests decode one fixed string each.",
     ["include/dottorrent/hex.hpp"], [("lookup tables and length checks", "from_hexadecimal_string, to_hexadecimal_string, hex_to_byte")],
     "exhaustive bounded enumeration of inputs on the real code against a reference codec", ENUM_NOTE)
prop("C28", "Percent-encoding round-trips and rejects malformed escapes",
     "Percent-encoding keeps unreserved characters and turns every other byte into % and two hexadecimal digits, and decoding that text gives the original bytes back. Decoding accepts exactly the well-formed texts and reports malformed or truncated escapes, for every kind of iterator.",
     ["inputs"], "for all byte strings and all candidate encoded strings",
     "Tests check three character-class predicates on samples; encode and decode are not run at all.",
     ["include/dottorrent/percent_encoding.hpp"], [("character classes and the decode state machine", "percent_encode, percent_decode, is_unreserved")],
     "exhaustive bounded enumeration of inputs on the real code against a reference codec", ENUM_NOTE)
prop("C30", "Digests equal the standard ones however the data is streamed",
     "For every supported hash function, the digest equals the standard digest of the concatenated data, of exactly the standard size, no matter how the data is split into updates, through which interface it is given, what the hasher was used for before, or which other hashers are in use; nothing outside the output buffer is written. An unavailable algorithm is reported as an error, never replaced by another.",
     ["inputs", "histories"], "for all messages, all splits into updates and all histories of updates, resets and finalizations on one or several hashers",
     "The built suite contains no hashing test, and the others hash a few strings in one update; carried-over state and block-boundary splits are not sampled.",
     ["include/dottorrent/hasher/openssl_hasher.hpp", "include/dottorrent/hasher/single_buffer_hasher.hpp", "include/dottorrent/hasher/factory.hpp", "src/hasher/backends/openssl.cpp", "include/dottorrent/hasher/backends/openssl.hpp"],
     [("EVP digest contexts with reset after finalize", "openssl_hasher, openssl::message_digest, get_evp_message_digest, make_hasher, make_hash")],
     "exhaustive enumeration of operation histories and splits on the real hashers against one-shot reference digests", ENUM_NOTE)
prop("C31", "Hash values keep, compare, print and parse their exact bytes",
     "A hash value built from text, bytes, an array or hexadecimal text holds exactly those bytes and yields them through every accessor; values are equal exactly when their bytes are, are ordered lexicographically by unsigned byte, and equal values have equal std::hash. Input of any other size, or with a non-hexadecimal digit, is rejected with an error. Every digest type has the size of its algorithm.",
     ["inputs"], "for all byte contents, input lengths and digest types", "Tests construct one or two hashes of one type.",
     ["include/dottorrent/hash.hpp", "include/dottorrent/hash_function_traits.hpp"], [("basic_hash and make_hash_from_hex", "basic_hash<N>, DOTTORRENT_HASH_CLASS_TEMPLATE")],
     "exhaustive bounded enumeration on the real code against a reference", ENUM_NOTE)
prop("C32", "Checksums keep their algorithm and value and reject wrong sizes",
     "A checksum made from a name or a hash function, given bytes, text or hexadecimal text, reports that name, algorithm, size and value; a value whose size does not fit a known algorithm, malformed hexadecimal text and unsupported functions are rejected; unknown names are kept as generic checksums. Checksums are equal exactly when name and value are, ordered by value within a name and unordered across names.",
     ["inputs"], "for all names, values and lengths", "Tests build two checksums.",
     ["include/dottorrent/checksum.hpp"], [("checksum factory", "make_checksum, make_checksum_from_hex, basic_checksum, generic_checksum")],
     "exhaustive bounded enumeration on the real code against a reference", ENUM_NOTE)
prop("C34", "Hash function names map one-to-one to the supported functions",
     "Every supported hash function has one name, the name maps back to that function and to no other, exactly the supported names are recognised (no prefix, case variant or near miss is), and functions without a name are reported as errors.",
     ["inputs"], "for all enumerators and all strings", "No test checks the name tables against each other.",
     ["include/dottorrent/hash_function.hpp"], [("name tables", "to_string, make_hash_function, is_hash_function_name, supported_hash_functions")],
     "exhaustive bounded enumeration on the real code against a reference table", ENUM_NOTE)
prop("C35", "Flag sets obey bitwise algebra and attribute texts round-trip",
     "For every enumeration declared as a flag set, all bitwise operators and their assigning forms compute the bitwise result of the underlying values, whatever the underlying type, and exist for no other enumeration. File attribute texts parse to exactly the flags they name, unknown letters are rejected, and printing an attribute set gives a text that parses back to it.",
     ["inputs"], "for all operand values and all attribute texts", "Tests check two attribute strings; the operators are not tested.",
     ["include/dottorrent/bitmask_operators.hpp", "include/dottorrent/general.hpp"], [("bitmask operators", "operator|, &, ^, ~, |=, &=, ^=; make_file_attributes, to_string")],
     "exhaustive enumeration of operand pairs and texts on the real code", ENUM_NOTE)
prop("C36", "DHT nodes compare, print and copy by address and port",
     "A DHT node holds exactly the address and port it was given and gives them back through members, get and structured bindings; nodes are equal exactly when both are equal and ordered by address and then port; the text form is address, colon and decimal port; copies and moves preserve the node.",
     ["inputs"], "for all addresses and ports", "No test covers the type by itself.",
     ["include/dottorrent/dht_node.hpp"], [("defaulted comparison and tuple protocol", "dht_node, get<N>")],
     "exhaustive enumeration of node pairs and of all ports on the real code", ENUM_NOTE)
prop("C38", "Size literals and piece arithmetic are exact",
     "Decimal and binary size literals denote exactly their multiple, bit sizes their number of bytes, and the rounding-up division and the floor and ceiling binary logarithms used for piece and tree sizes are exact for every 64-bit value.",
     ["inputs"], "for all 64-bit values whose result fits", "No test covers the literals or the helpers at the extremes of their range.",
     ["include/dottorrent/literals.hpp", "include/dottorrent/utils.hpp"], [("user-defined literals, div_ceil, log2", "literals.hpp, utils.hpp")],
     "exhaustive enumeration of a boundary-complete value space on the real code", ENUM_NOTE)
prop("C39", "Errors carry their message and can be told apart",
     "A parse error names the field and the reason verbatim, whatever characters they contain; both error types are runtime errors, keep their message when copied, and are distinguishable from each other.",
     ["inputs"], "for all keys and messages", "No test inspects error messages.",
     ["include/dottorrent/error.hpp"], [("error classes", "parse_error, bad_torrent_file")],
     "exhaustive enumeration of key and message pairs on the real code", ENUM_NOTE)
prop("C40", "Chunk buffers are aligned, separate and safely sized",
     "Every non-empty chunk buffer starts on a 64-byte boundary (and generally on the requested alignment), is at least as large as asked, and never overlaps another live buffer, through any history of growing, shrinking, copying, moving and swapping; impossible sizes fail with an exception rather than giving a smaller buffer; released storage is freed exactly once; elements are constructed and destroyed exactly once.",
     ["inputs", "histories"], "for all sizes, alignments and histories of buffer operations", "No test covers the allocator.",
     ["include/dottorrent/aligned_allocator.hpp", "include/dottorrent/data_chunk.hpp"], [("aligned_alloc behind an allocator", "aligned_allocator::allocate, max_size; data_chunk::data_type")],
     "exhaustive enumeration of sizes and operation histories on the real code against a model", ENUM_NOTE)

SEQ_NOTE = "Exhaustive over all operation sequences and inputs of the stated bounded space, executed on the real code against an independent reference model; nothing is claimed outside the bounds."
prop("C16", "Merkle trees hold exactly the hashes of their leaves",
     "A Merkle tree over n leaves is the smallest complete binary tree with room for them; unset leaves keep the given filler; after an update every inner node is the hash of its two children's hashes concatenated, so the root is the standard Merkle root. Layer, node, range and subtree views show exactly those nodes, changing the leaf count discards everything, and copies, moves and assignments give independent equal trees. Leaves may be set and trees assigned to each other by several threads at once.",
     ["inputs", "histories", "schedules"], "for all leaf counts, fillers and leaf values, all sequences of resizing, setting leaves, updating, copying and assigning, and all schedules of threads doing so",
     "The one test builds a single small tree and checks its root.",
     ["include/dottorrent/merkle_tree.hpp", "include/dottorrent/utils.hpp"], [("flat array layout with layer arithmetic", "merkle_tree::set_leaf_nodes, update, get_layer, get_node_range, parent, get_flat_index")],
     "exhaustive enumeration of tree sizes and operation sequences on the real tree against a recursive reference, every node compared; and all schedules, up to a preemption bound, of threads sharing trees", SEQ_NOTE)
prop("C17", "File storage bookkeeping stays consistent under every sequence of edits",
     "After any sequence of adding, removing, clearing, resizing pieces, storing hashes and looking up directories, the storage holds exactly the entries added and not removed, in order; its sizes, counts, file mode, piece count and protocol version follow from them; hashes made for other pieces are gone after clearing or changing the piece size; and a directory listing holds exactly the files inside that directory, not those of a directory whose name merely starts the same.",
     ["histories"], "for all sequences of storage operations over plain, empty, padding, link and same-named files",
     "Three small tests check one layout each; none interleaves removal, clearing, hashes and lookups.",
     ["include/dottorrent/file_storage.hpp", "src/file_storage.cpp"], [("running totals, lazily sorted index, piece vector", "file_storage::add_file, remove_file, clear, set_piece_size, allocate_pieces, directory_contents, protocol, file_mode; directory_count")],
     "explicit enumeration of all operation sequences on the real storage in lockstep with a reference model", SEQ_NOTE)
prop("C18", "Pieces, files and offsets map onto each other exactly",
     "The piece count is the total size divided by the piece size, rounded up; the pieces reported for a file are exactly those containing one of its bytes (none for an empty file); the size scans give each file's start and end, padding counted or not as documented; the alignment test says whether every regular file starts on a piece boundary; and absolute paths are the root directory joined with each entry, in order.",
     ["inputs"], "for all file layouts and piece sizes, including empty, padding and link entries and sizes up to 2^62",
     "Tests check one aligned and one unaligned layout for one function.",
     ["src/file_storage.cpp"], [("integer division of cumulative sizes", "file_storage::piece_count, get_pieces_offsets, get_pieces_span; exclusive_file_size_scan, inclusive_file_size_scan_v1/v2, is_piece_aligned, absolute_file_paths")],
     "exhaustive enumeration of bounded layouts on the real code against 128-bit reference arithmetic", ENUM_NOTE)
prop("C19", "The automatic piece size is a valid power of two for every total size",
     "For every total size, also zero, the chosen piece size is a power of two between 32 KiB and 16 MiB, the one that gives between 512 and 1023 full pieces when that is possible, and the storage then uses exactly the returned size.",
     ["inputs"], "for all total sizes at and around every power of two, however distributed over files",
     "No test calls it with sizes near the rounding boundaries or with no data.",
     ["src/file_storage.cpp"], [("logarithm with clamping", "choose_piece_size, file_storage::set_piece_size")],
     "exhaustive enumeration of boundary sizes on the real code against integer arithmetic", ENUM_NOTE)
prop("C20", "Aligning a storage keeps its files and adds only the padding needed",
     "After alignment every regular file starts on a piece boundary; the regular entries are unchanged and in the same order; only padding entries with the canonical name, smaller than a piece, were added, none after the last file; an aligned storage, an empty one and one already containing padding are handled, and aligning twice equals aligning once.",
     ["inputs"], "for all storages of files, links, empty files and padding files with sizes around the piece boundary",
     "One test counts the entries of one layout.",
     ["src/file_storage.cpp", "src/file_entry.cpp"], [("running offset modulo piece size", "optimize_alignment, make_padding_file_entry, is_piece_aligned")],
     "exhaustive enumeration of bounded layouts on the real code against a reference", ENUM_NOTE)
prop("C21", "Copies and moves of entries and storages lose nothing",
     "A copied, moved, assigned or swapped file entry or file storage has exactly the content of its source: path, size, attributes, link target, time, v2 root and layer, every checksum; piece hashes, piece size, file mode, root directory and directory lookups. Copies are independent of their source, and missing v2 data is reported instead of invented.",
     ["inputs", "histories"], "for all entries over a space of optional fields and all storages of up to three of them, over every kind of target",
     "No test copies an entry with checksums, moves one by assignment or copies a storage and uses all of it.",
     ["include/dottorrent/file_entry.hpp", "src/file_entry.cpp", "src/file_storage.cpp"], [("hand-written copy and move members", "file_entry and file_storage constructors and assignment operators; remove_checksum, get_checksum")],
     "exhaustive enumeration of bounded values and operations on the real code, full content compared", ENUM_NOTE)
prop("C22", "The announce list keeps gapless, sorted tiers under every edit",
     "After any sequence of insertions, emplacements and erasures the list holds exactly the urls put in and not erased, tiers ascending without gaps and each tier sorted; erasing the last url of a tier moves the later tiers up; lookups, tier ranges, membership and returned iterators agree with the content, however the list was built.",
     ["histories"], "for all sequences of edits over several urls and tiers, and all literal lists",
     "Tests perform a few fixed edits; returned iterators and literal construction in unsorted order are not used.",
     ["include/dottorrent/announce_url_list.hpp", "include/dottorrent/announce_url.hpp"], [("sorted vector with binary searches and tier renumbering", "announce_url_list::insert, emplace, erase, find, contains, get_tier")],
     "explicit enumeration of all operation sequences on the real list in lockstep with a reference model, every query after every step", SEQ_NOTE)
prop("C33", "Info hashes compare, order and hash by their whole content",
     "Two info hashes are equal exactly if they have the same version and the same hashes; the order is a total order consistent with that equality; equal ones hash alike, so sets neither merge nor duplicate them. Every constructor gives back exactly the bytes and hexadecimal text put in, wrong lengths and digits are rejected, and asking for an absent version is reported.",
     ["inputs"], "for all pairs and triples over v1, v2 and hybrid values, and all input lengths",
     "Tests compare two values of equal version.",
     ["include/dottorrent/info_hash.hpp", "include/dottorrent/hash.hpp"], [("optional hashes with hand-written comparison", "info_hash constructors, from_hex, operator==, operator<=>, std::hash<info_hash>")],
     "exhaustive enumeration of pairs and triples over a bounded value set on the real code", ENUM_NOTE)
prop("C23", "A metafile written and read back is the same metafile",
     "Whatever a metafile holds (files with attributes, symlinks and checksums, piece hashes, v2 roots and layers, trackers in tiers, seeds, nodes, dates, unknown info fields ...), writing it as any version its storage has hashes for and reading it back by any interface gives the same content, and writing that again gives the same metafile. Saving to a file either leaves exactly those bytes there or reports an error.",
     ["inputs"], "for all file layouts, stored and written versions and combinations of fields, and every kind of destination",
     "The tests that read and write metafiles use a few sample files and cannot be built here; combinations of features and failing destinations are not covered.",
     ["src/metafile.cpp", "src/metafile_parsing.cpp", "src/metafile_serialization.cpp", "include/dottorrent/serialization"],
     [("separate hand-written encoders and parsers per protocol version", "detail::make_bvalue_*, detail::parse_*, read_metafile, write_metafile, save_metafile, load_metafile")],
     "exhaustive enumeration of abstract metafiles (deviation-bounded) executed on the real writer and reader, compared field by field with the abstract metafile", ENUM_NOTE)
prop("C24", "The info hash is the hash of the info dict written, and never drifts",
     "The v1 and v2 info hashes of a metafile are the SHA-1 and SHA-256 of exactly the info dict bytes that writing it produces. They are unchanged by reading the metafile back, by any field outside the info dict, and for a foreign metafile with unknown info fields they are the hashes of the original bytes; magnet links carry the same hashes. Cross seeding gives announce lists of different urls different hashes.",
     ["inputs"], "for all layouts, versions and combinations of fields, own and foreign",
     "A test compares the info hash of one or two sample files; drift appears only for particular fields and versions.",
     ["src/metafile.cpp", "src/metafile_serialization.cpp", "src/metafile_parsing.cpp", "src/magnet_uri.cpp"],
     [("the info dict is rebuilt from parsed fields, with unknown ones kept aside", "info_hash_v1, info_hash_v2, make_bvalue_infodict_*, parse_other_info_fields")],
     "exhaustive enumeration of own and foreign metafiles on the real code, against hashes of the raw info bytes cut out by an independent decoder", ENUM_NOTE)
prop("C25", "Malformed metafiles are rejected, never fatal, and cannot escape their root",
     "Reading any bytes either throws an exception or yields a metafile that is sound: a valid piece size, as many v1 piece hashes as pieces, gapless tiers, and only file paths that stay inside the torrent's directory. It never terminates the process, reads outside the input, or asks for memory out of proportion to it; all reading interfaces agree; and what was accepted can be written and is then read as the same metafile.",
     ["inputs"], "for all single structural and byte mutations of metafiles covering every key, pairs of them, truncations, nesting depths and short token strings",
     "Tests read well-formed files; metafiles come from untrusted sources and the failing ones are unusual by construction.",
     ["src/metafile_parsing.cpp", "src/metafile.cpp", "src/file_entry.cpp"],
     [("hand-written validation of every field", "detail::parse_*, parse_metafile, read_metafile")],
     "exhaustive enumeration of a mutation space around metafiles covering every key, executed on the real parser under AddressSanitizer", ENUM_NOTE)
prop("C26", "Metafile edits act like edits of plain lists, sets and fields",
     "After any sequence of additions, removals and clears, the trackers (each url once, in the tier last asked for, tiers without gaps), http seeds, web seeds, dht nodes, similar torrents and collections are exactly what was put in and not taken out, and every scalar field holds its last value, untouched by other edits. Metafiles with the same content are equal, others are not.",
     ["histories"], "for all sequences of edits over small sets of values",
     "Tests perform single edits; moving a tracker between tiers, repeated additions and mixed removals are not tried.",
     ["src/metafile.cpp", "include/dottorrent/metafile.hpp", "include/dottorrent/announce_url_list.hpp"],
     [("duplicate suppression and tier moves", "metafile::add_tracker, remove_tracker, add_*, remove_*, clear_*, set_*, operator==")],
     "explicit enumeration of all edit sequences on the real metafile in lockstep with a reference model", SEQ_NOTE)
prop("C29", "Magnet links encode every field and parse back to the same link",
     "Encoding any magnet link gives a well-formed uri with every parameter present once per value and percent-encoded, through every kind of output iterator, and parsing it gives the same link back. Links made from a metafile carry its info hashes for the version asked for, its name, trackers, web seeds and nodes. Any other text is parsed or rejected with an exception; a size that is not a decimal number of at most 64 bits is rejected.",
     ["inputs"], "for all combinations of parameters with awkward values, all metafile layouts and versions, and all short token strings",
     "One test checks the prefix of one encoded link; it cannot be built here.",
     ["include/dottorrent/magnet_uri.hpp", "src/magnet_uri.cpp", "include/dottorrent/percent_encoding.hpp"],
     [("separate encoder and parser of the query string", "encode_magnet_uri, make_magnet_uri, split_query_string, split_keywords_string")],
     "exhaustive enumeration of bounded links and token strings on the real encoder and parser, against an independent encoder", ENUM_NOTE)
prop("C37", "Metafiles are written as the BitTorrent specifications prescribe",
     "The written bytes are canonical bencode holding exactly the keys and values the specifications prescribe for the fields set: announce and announce-list with sorted tiers, v1 file lists and pieces, v2 file trees without padding files, roots and layers, attributes, symlinks, checksums, dht nodes, dates and flags, unknown info fields; defaults are omitted. Every writing interface gives the same bytes, and the JSON form describes them.",
     ["inputs"], "for all layouts, stored and written versions and combinations of fields",
     "Tests check a few serialised fields; a metafile other clients cannot read, or hash differently, passes them.",
     ["src/metafile_serialization.cpp", "include/dottorrent/serialization", "src/metafile.cpp"],
     [("event-based encoders", "make_bvalue_common, make_bvalue_infodict_v1/v2/hybrid, bencode_connect overloads, serialize_json_to")],
     "exhaustive enumeration of abstract metafiles (deviation-bounded) on the real writer, compared with an independent encoding", ENUM_NOTE)

FILES_HASH = ["src/storage_hasher.cpp", "include/dottorrent/storage_hasher.hpp", "src/chunk_reader.cpp", "src/v1_chunk_reader.cpp", "src/v2_chunk_reader.cpp", "src/chunk_processor_base.cpp", "src/chunk_hasher_single_buffer.cpp", "src/v1_chunk_hasher_sb.cpp", "src/v2_chunk_hasher_sb.cpp", "src/v1_piece_writer.cpp", "src/v2_piece_writer.cpp", "include/dottorrent/merkle_tree.hpp", "include/dottorrent/object_pool.hpp", "include/dottorrent/concurrent_queue.hpp", "include/dottorrent/concurrent_queue_processor.hpp"]
FILES_VERIFY = ["src/storage_verifier.cpp", "include/dottorrent/storage_verifier.hpp", "src/v1_piece_verifier.cpp", "src/v2_piece_verifier.cpp"] + FILES_HASH[2:9] + FILES_HASH[11:]
PIPE_NOTE = ("Every enumerated storage is hashed or verified by the real multi-threaded pipeline on real files, under the deterministic scheduler with one fixed schedule; "
             "C05 and C06 explore the schedules. Exhaustive over the stated layouts and options; larger storages are not covered.")
PIPE_SCHED = ("The real reader, hasher, checksum, writer and verifier threads run on real files under the controlled scheduler; all schedules with up to the stated number of deviations "
              "from the default schedule (delay bounding) are executed, with happens-before race detection. Sequentially consistent interleavings; OpenSSL's single-buffer hashers; the multi-buffer ones are property C43.")

prop("C05", "Hashing gives the same correct result under every thread schedule",
     "Whatever the interleaving of the reader, the hashing threads, the checksum threads and the writers, hashing a storage ends and yields exactly the piece hashes, Merkle roots, piece layers and file checksums of the files, without a data race, a deadlock or an abort.",
     ["schedules"], "for all interleavings of the threads of a hasher, for small storages, v1, v2 and hybrid, one or two hashing threads and with and without checksums",
     "A test runs the one interleaving the machine happens to produce; orders in which blocks finish late, or queues are full, are rarely met.",
     FILES_HASH + ["src/v1_checksum_hasher.cpp", "src/v2_checksum_hasher.cpp"], [("bounded queues between reader, hashers and writer, per-file block counters, chunk pool", "storage_hasher::start, wait; chunk_processor_base; v2_piece_writer::set_finished_piece")],
     "stateless model checking of the real pipeline (delay-bounded enumeration of all schedules) with race detection, against independently computed hashes", PIPE_SCHED)
prop("C06", "Verification gives the same correct verdict under every thread schedule",
     "Whatever the interleaving of reader, hashing threads and verifier, verifying a storage ends and marks exactly the pieces whose bytes on disk match, without a data race, a deadlock or an abort, also when files are missing, damaged or truncated.",
     ["schedules"], "for all interleavings of the threads of a verifier, for small storages that are intact, damaged, truncated or have missing files",
     "A test runs the one interleaving the machine happens to produce.",
     FILES_VERIFY, [("bounded queues, piece map, per-file block counters", "storage_verifier::start, wait; v1_piece_verifier, v2_piece_verifier")],
     "stateless model checking of the real pipeline (delay-bounded enumeration of all schedules) with race detection, against independently computed verdicts", PIPE_SCHED)
prop("C07", "Hashers and verifiers can be started, cancelled and waited for in any order",
     "A hasher or verifier reports exactly whether it was started, is running, was cancelled or is done. Calls that make no sense in a state (starting twice or after the end, waiting when not running, cancelling what is done) throw and change nothing; querying is always allowed, and reports no progress before the start. Cancelling at any moment, under every schedule, returns after all threads have ended, and leaves in the storage only correct results; so does a wait that fails because a file cannot be read. A task that is not running can be destroyed.",
     ["schedules", "histories"], "for all sequences of calls from the controlling thread, all moments of cancelling and all interleavings with the worker threads",
     "Tests start and wait, or cancel once; a cancellation that meets a full queue or a blocked worker needs particular timing.",
     FILES_HASH + FILES_VERIFY[:4], [("status flags, stop tokens and sentinels", "storage_hasher and storage_verifier start, cancel, wait; chunk_processor_base; chunk_reader")],
     "stateless model checking of the real pipeline: all call sequences to a bounded depth, and all schedules (delay-bounded) of cancelling at every amount of data read", PIPE_SCHED)
prop("C08", "Progress only grows, never overshoots and ends at the total",
     "While a storage is hashed or verified, the number of bytes read, hashed and done never decreases and never exceeds the data there is, and when the task is finished bytes done equals the total. The current file always exists in the storage, never goes back, and the bytes done in it never exceed its size. For hybrid torrents bytes hashed is the average of what was hashed for v1 and v2.",
     ["schedules"], "for all moments of asking, all interleavings with the worker threads, and storages with empty, padding, missing and truncated files",
     "Tests do not query progress while threads run.",
     ["src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/chunk_processor_base.cpp", "src/v1_chunk_hasher_sb.cpp", "src/v2_chunk_hasher_sb.cpp", "src/v1_chunk_reader.cpp", "src/v2_chunk_reader.cpp", "include/dottorrent/file_progress_data.hpp"],
     [("atomic byte counters and the cumulative file sizes", "bytes_read, bytes_hashed, bytes_done, current_file_progress, inclusive_file_size_scan_v1/v2")],
     "stateless model checking of the real pipeline with a polling observer (delay-bounded enumeration of all schedules)", PIPE_SCHED)
prop("C09", "v1 piece hashes are the SHA-1 of each piece of the concatenated files",
     "Hashing a storage for protocol v1 leaves, for each piece in order, the SHA-1 of exactly the bytes of that piece in the concatenation of all files, with padding files as zero bytes and a short last piece, whatever the file sizes, piece size, i/o block size, memory limit and number of threads, and again when hashed again. If a file is missing, too short or unreadable, waiting reports an error instead of hashes.",
     ["inputs", "options"], "for all file layouts and all hashing options",
     "Two tests hash one fixed directory; sizes around piece and block boundaries, empty files, padding files and unusual options are not sampled.",
     FILES_HASH, [("chunks of complete pieces cut from the concatenated files", "v1_chunk_reader::run, v1_chunk_hasher_sb::hash_chunk, v1_piece_writer")],
     "exhaustive enumeration of bounded file layouts and options executed on the real pipeline, against SHA-1 over the concatenated bytes", PIPE_NOTE)
prop("C10", "v2 roots and piece layers are the BEP 52 Merkle hashes of each file",
     "Hashing for protocol v2 gives every non-empty file the root of the SHA-256 Merkle tree over its 16 KiB blocks and, when it is larger than a piece, exactly the layer of hashes covering one piece each, without the balancing nodes; v1 data is not touched. This holds for all file sizes, piece sizes and options. If a file is missing, too short or unreadable, waiting reports an error instead of hashes.",
     ["inputs", "options"], "for all file layouts and all hashing options",
     "Tests hash one fixed directory and compare one info-hash.",
     FILES_HASH, [("per-file Merkle trees filled leaf by leaf", "v2_chunk_reader::run, v2_chunk_hasher_sb::hash_chunk, v2_piece_writer::set_piece_layers_and_root")],
     "exhaustive enumeration of bounded file layouts and options executed on the real pipeline, against an independent Merkle construction", PIPE_NOTE)
prop("C11", "Hybrid hashing gives v1 and v2 hashes of the same aligned files",
     "Hashing for a hybrid torrent inserts padding so that every file but the first starts on a piece boundary, gives every piece the SHA-1 over the file and the padding after it (also padding files the storage already had), and at the same time every file its v2 root and piece layer, so that both halves of the torrent describe the same data. This holds for all file sizes, piece sizes and options, and again when hashed again.",
     ["inputs", "options"], "for all file layouts and all hashing options",
     "Tests hash one fixed directory.",
     FILES_HASH + ["src/file_storage.cpp"], [("alignment and padded v1 pieces in the v2 hasher", "optimize_alignment, v2_chunk_hasher_sb::hash_chunk, v1_piece_offsets_")],
     "exhaustive enumeration of bounded file layouts and options executed on the real pipeline, against independent v1 and v2 references", PIPE_NOTE)
prop("C12", "Every file gets exactly the requested checksums of its own bytes",
     "When checksums are requested, every regular file, also empty ones, the last one and those next to padding files, has for each requested function exactly the digest of its own bytes after hashing, in addition to correct piece hashes; hashing again replaces them by those of the current bytes.",
     ["inputs", "options"], "for all file layouts, sets of checksum functions and protocol versions",
     "Tests compare two checksums of one fixed directory, whose files are not even in the repository.",
     ["src/v1_checksum_hasher.cpp", "src/v2_checksum_hasher.cpp", "src/file_entry.cpp", "src/storage_hasher.cpp", "src/chunk_hasher_single_buffer.cpp"],
     [("stream of chunks split at file boundaries", "v1_checksum_hasher::hash_chunk, v2_checksum_hasher::hash_chunk, finish; file_entry::add_checksum")],
     "exhaustive enumeration of bounded file layouts and function sets executed on the real pipeline, against one-shot digests", PIPE_NOTE)
prop("C13", "v1 verification marks exactly the pieces whose bytes match",
     "Verifying files against v1 piece hashes marks a piece complete if and only if all its bytes on disk match, for any combination of intact, altered, missing, truncated and too long files and of padding files; bytes that are absent match nothing but zeros, and damage never spreads to pieces that do not contain it. An unreadable file gives an error or incomplete pieces, never a crash or a false success.",
     ["inputs"], "for all file layouts, piece sizes and damages of the files on disk",
     "Tests verify one intact directory and one with a missing file.",
     FILES_VERIFY, [("piece hashing with missing data replaced", "v1_chunk_reader::run, v1_chunk_hasher_sb, v1_piece_verifier::verify_finished_piece")],
     "exhaustive enumeration of bounded layouts and damages executed on the real pipeline, against per-piece byte comparison", PIPE_NOTE)
prop("C14", "v2 verification marks exactly the pieces whose bytes match",
     "Verifying files against v2 roots and piece layers (also of hybrid torrents) marks a piece of a file complete if and only if its bytes on disk match, for any combination of intact, altered, missing, truncated and too long files, with empty and padding files having no pieces; one damaged file never affects the verdict on another.",
     ["inputs"], "for all file layouts, piece sizes and damages of the files on disk",
     "Tests verify one intact directory and one with a missing file.",
     FILES_VERIFY, [("per-file trees compared with root and layer", "v2_chunk_reader::run, v2_piece_verifier::verify_piece_layers_and_root")],
     "exhaustive enumeration of bounded layouts and damages executed on the real pipeline, against per-piece byte comparison", PIPE_NOTE)
prop("C15", "A verified file's percentage is its share of complete pieces",
     "After verification the percentage of a file, asked by index or by entry, is the share of complete ones among the pieces that hold its bytes: 100 exactly when the file is intact (always for an empty file), 0 when all its pieces are damaged; an entry that is not in the storage is refused. What a hasher produced verifies as 100 percent for unchanged files, for v1, v2 and hybrid.",
     ["inputs"], "for all file layouts, damages and protocol versions",
     "Tests check the percentage of a few files of one directory.",
     ["src/v1_piece_verifier.cpp", "src/v2_piece_verifier.cpp", "src/storage_verifier.cpp", "src/file_storage.cpp"],
     [("piece map and piece ranges per file", "v1_piece_verifier::percentage, v2_piece_verifier::percentage, file_storage::get_pieces_offsets")],
     "exhaustive enumeration of bounded layouts and damages executed on the real pipeline, against the ratio computed from the bytes", PIPE_NOTE)
prop("C41", "Files added from disk are described exactly as they are on disk",
     "Adding a file from disk, by any spelling of its path, with any options and through any of the adding functions, gives an entry whose path is the file's place below the root directory, whose size is the file's and whose attributes (only when asked for) tell whether it is executable. A symlink is added as the file it points to unless copying symlinks is asked for; then it has no content and its target is stored relative to the root directory. What is missing, no file, outside the root directory or points outside it as a copied symlink is refused, and leaves the storage as it was.",
     ["inputs", "options"], "for all kinds of files and links inside and outside the root, spellings of paths, options and ways of adding",
     "Tests add the regular files of one directory by clean absolute paths; links, odd names and escaping paths are not tried.",
     ["src/file_entry.cpp", "src/file_storage.cpp", "include/dottorrent/file_storage.hpp", "include/dottorrent/general.hpp"],
     [("path made relative to the root and checked, options decide on attributes and links", "make_file_entry, file_storage::add_file, add_files")],
     "exhaustive enumeration of a bounded world of files, spellings, options and ways of adding, executed on the real code against the world's description", ENUM_NOTE)
prop("C42", "A torrent made from files, saved and loaded, verifies exactly those files",
     "Adding files from disk, hashing them for v1, v2 or hybrid, saving the metafile and loading it again always gives a torrent with the same files, attributes, symlinks, checksums, name, piece size, protocol and info hash (the one its magnet link carries), which verifies completely against the unchanged files and, when one of them is altered, truncated or removed, reports exactly the damaged pieces, and completes again once the file is restored.",
     ["inputs", "options", "histories"], "for all small file trees in any order, with or without attributes, symlinks and checksums, all protocol versions and damages",
     "Tests exercise each stage alone on fixed data; a disagreement between hashing, writing, reading and verifying only shows for particular trees.",
     ["src/file_entry.cpp", "src/file_storage.cpp", "src/storage_hasher.cpp", "src/metafile_serialization.cpp", "src/metafile_parsing.cpp", "src/metafile.cpp", "src/storage_verifier.cpp", "src/magnet_uri.cpp"],
     [("the whole chain from files to torrent and back", "add_files, storage_hasher, save_metafile, load_metafile, storage_verifier, make_magnet_uri")],
     "exhaustive enumeration of bounded file trees, options and damages through the whole real library, against byte comparison of the files", PIPE_NOTE)
prop("C43", "Multi-buffer hashing gives the same results as ordinary hashing",
     "In a build with ISA-L the multi-buffer hashers give for every job the standard digest of its data, of exactly the standard size, whatever jobs run beside it, however the data is split, in whatever order results are asked for and whatever the hasher was used for before; unsupported functions are refused. Merkle trees, hashing and verification that use them give exactly the results, progress and errors of the ordinary ones, for every protocol version, under every thread schedule and cancellation.",
     ["inputs", "histories", "schedules", "options"], "for all bounded job histories, numbers of lanes and completion orders, file layouts, damages and bounded schedules",
     "The multi-buffer code is compiled only with ISA-L and shares no code with the ordinary hashers; results depend on which jobs are in flight together.",
     ["include/dottorrent/hasher/backends/isal.hpp", "include/dottorrent/hasher/isal_multi_buffer_hasher.hpp", "src/chunk_hasher_multi_buffer.cpp", "src/v1_chunk_hasher_mb.cpp", "src/v2_chunk_hasher_mb.cpp", "include/dottorrent/merkle_tree.hpp"],
     [("jobs are flushed until the one asked for is complete", "multi_buffer_hasher_impl::finalize_to"), ("chunks are split into jobs", "v1_chunk_hasher_mb::hash_chunk, v2_chunk_hasher_mb::hash_chunk")],
     "exhaustive enumeration of job histories, lane counts, layouts and bounded schedules of the real multi-buffer code on a stand-in of ISA-L, against one-shot digests", PIPE_NOTE)
prop("C44", "Hashers work alike on every crypto library and report its failures",
     "Built on OpenSSL, wolfSSL or WinCNG, a hasher gives for every function it says it supports the standard digest, however the data is split (also in single updates of more than 4 GiB) and whatever it was used for before, and refuses every other function. When a call of the library fails, whichever it is, the hasher throws instead of delivering a wrong digest, and hashers made later work. Everything taken from the library is given back exactly once, also after a failure, and a copied or moved hasher, where that is possible at all, is independent of its source.",
     ["inputs", "histories", "fault_sequences", "configurations"], "for all bounded histories of updates and finalizations, functions and libraries, with a failure at every call of the library",
     "Tests run on OpenSSL alone and none of its calls ever fails in them.",
     ["src/hasher/backends/openssl.cpp", "include/dottorrent/hasher/openssl_hasher.hpp", "include/dottorrent/hasher/backends/wolfssl.hpp", "include/dottorrent/hasher/wolfssl_hasher.hpp", "include/dottorrent/hasher/backends/wincng.hpp", "include/dottorrent/hasher/wincng_hasher.hpp", "include/dottorrent/hasher/factory.hpp"],
     [("each call of the library is checked", "openssl::message_digest, wolfssl_hasher_impl, wincng::message_digest"), ("one hasher per function", "make_hasher")],
     "exhaustive enumeration of call histories and of the library call that fails (fault injection), against one-shot digests", "OpenSSL is the real one with failures injected at link time; wolfSSL and WinCNG are stand-ins of their interface, so defects of those libraries themselves are out of reach.")
