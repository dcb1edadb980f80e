#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call of P() per property."""
import json, os
OUT = []
def P(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    OUT.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": hook}})

P("C01", "Acknowledged samples come back exactly",
  "After any sequence of accepted writes whose timestamps lie in the active time window and increase within each series, a query returns, for each series carrying all the requested labels, exactly the accepted samples whose timestamps lie in the requested closed range: same timestamps, bit-identical values (NaN payloads, infinities and signed zero included), in time order, once each, under exactly that series' label set. Series without a sample in the range do not appear and do not affect the answer for other series. This holds for every combination of the sled and TiKV storage and indexer backends.",
  ["inputs", "histories", "configurations"],
  "Every history of single and batched writes and queries over any set of label sets, every range, all four storage/indexer combinations.",
  "Tests insert a handful of hand-written series and query one chunk with whole-window ranges; none mixes series that do and do not overlap the range, and sample equality in tests ignores values.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"],
  [("write path into the active chunk", "src/db.rs write_time_point(s), src/chunk/chunk.rs insert"), ("query over active and closed chunks", "src/db.rs query, src/chunk/chunk.rs query")],
  ["MonolithDb::write_time_point(s)", "MonolithDb::query"])
P("C02", "Range reads of one stored series are exact",
  "Reading a stored series over a closed time range yields exactly the samples whose timestamps lie in that range, in order and with bit-identical values, for any series content and any range, including ranges that fall between samples, are empty or touch a single sample. When the series is unknown or no sample can be in the range, the read gives an empty result or an error, never a crash or a sample outside the range.",
  ["inputs", "histories", "configurations"],
  "Every increasing series of any length, every (start, end) pair over the whole unsigned 64-bit range, both storage backends.",
  "One test per backend reads ranges that start and end on existing samples or cover everything.",
  ["src/storage/common.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"],
  [("range trimming by binary search", "src/storage/common.rs trim_time_series"), ("16-byte sample records", "src/storage/sled_storage.rs KvStorageProcessor")],
  ["Storage::write_time_point", "Storage::read_time_series"])
P("C03", "Label selection is the exact conjunction of the requested labels",
  "Selecting by a non-empty set of labels returns exactly the series that carry every one of those labels, each once, with its full label set; a label that no series carries selects nothing. Looking a series up by its complete label set finds it regardless of the order of the labels and finds nothing for any other set, including subsets and supersets.",
  ["inputs", "histories", "configurations"],
  "Every collection of label sets created in any order, every selection of one or more known or unknown labels, both indexer backends.",
  "Tests create one to three label sets with plain values and never ask for an absent label.",
  ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/indexer/common.rs", "src/common/utils.rs"],
  [("reverse index label to ids and intersection", "src/indexer/*_indexer.rs get_series_id_contains_labels"), ("label-set key", "KvIndexerProcessor::encode_labels")],
  ["Indexer::create_index", "Indexer::get_series_id_contains_labels", "Indexer::get_series_metadata_contains_labels", "Indexer::get_series_id_by_labels"])
P("C04", "Different label sets are never confused and labels come back verbatim",
  "For label names of the Prometheus form and arbitrary Unicode label values (commas, equals signs, backslashes, quotes and newlines included), every series keeps its own samples and is reported with exactly the labels it was written with. Two series whose label sets differ in any name or value are never merged, and a series never hides, replaces or breaks the lookup of another.",
  ["inputs", "histories", "configurations"],
  "Every pair or group of label sets over that alphabet, adversarially similar ones in particular, both indexer backends.",
  "Tests only use alphanumeric values, for which any textual encoding is unambiguous.",
  ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/chunk/chunk.rs", "src/common/label.rs"],
  [("text encoding of label sets and its inverse", "src/indexer/sled_indexer.rs KvIndexerProcessor"), ("key prefixes", "src/indexer/sled_indexer.rs")],
  ["MonolithDb::query", "Chunk::insert", "Chunk::query", "Indexer::*"])
P("C05", "Rolling over to a new chunk loses, repeats and reorders nothing",
  "However many times the active chunk has been replaced by a new one, and whatever was written in between, a query over any range returns each matching series once, with the samples of all chunks that overlap the range, each exactly once and in time order. New samples in the new window are accepted after a rollover, including for series that exist in older chunks and for new ones.",
  ["histories", "inputs", "configurations"],
  "Every history of writes, rollovers and queries, every range across one or several chunk boundaries, all backend combinations.",
  "No test ever replaces a chunk: rollover happens on a timer of hours.",
  ["src/db.rs", "src/chunk/chunk.rs"],
  [("chunk swap", "src/db.rs swap"), ("merge of chunk results in time order", "src/db.rs query")],
  ["MonolithDb::query", "MonolithDb::write_time_points"],
  [("current chunk / closed chunks", "chunk that takes writes, and the older ones in time order", "src/db.rs MonolithDb")],
  "a guarded way to trigger a rollover at a chosen time")
P("C06", "Reopening a database keeps everything that was stored",
  "When a database whose data has reached the disk is opened again from its directory with the same backends, any number of times, every query gives the same samples under the same labels as before, and new writes are accepted in addition. This does not depend on how the directory is named, on how many chunks there are, on whether sample timestamps lie ahead of the clock, or on the query range.",
  ["histories", "configurations", "inputs"],
  "Every history of writes, rollovers and reopenings, directory paths with any Unicode name, sled and shared TiKV backends.",
  "No test opens a database twice.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/common/utils.rs", "src/backend/tikv.rs", "src/storage/sled_storage.rs", "src/indexer/sled_indexer.rs", "src/storage/tikv_storage.rs", "src/indexer/tikv_indexer.rs"],
  [("scan of chunk directories", "src/db.rs read_existing_chunk"), ("component identifiers kept in the shared store", "src/backend/tikv.rs init_component")],
  ["MonolithDb::new", "MonolithDb::query", "the database directory"])
P("C07", "A crash at any point leaves a database that opens and tells the truth",
  "If the process is killed at any file operation - while a database is being created, written, rolled over or reopened - the next start on that directory succeeds and accepts writes. Everything it returns was written, under the right labels, and in each chunk the samples of a series that are returned form a prefix of those written; chunks closed and on disk before the crash are complete.",
  ["crash_points", "histories"],
  "Every file-system operation of the process as the crash point, over generated histories of writes and rollovers.",
  "The only tests that kill a server look for its metadata file one second after start.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/storage/sled_storage.rs", "src/indexer/sled_indexer.rs", "doc/wal.md"],
  [("metadata written before data", "src/db.rs new, swap"), ("index flushed before samples", "src/indexer/sled_indexer.rs create_index")],
  ["MonolithDb::new", "MonolithDb::query", "process kill"])
P("C08", "A database is never opened with other backends than it was created with",
  "A directory created with one pair of storage and indexer types opens again with the same pair, and refuses to open with any other pair; a refused attempt leaves the stored data and the recorded types as they were.",
  ["configurations", "histories"],
  "All ordered pairs of backend combinations, with any number of refused and accepted attempts in any order.",
  "One unit test checks a single mismatch of hand-made type names through a private function.",
  ["src/db.rs", "src/common/metadata.rs"],
  [("type names recorded in the database directory", "src/db.rs read_or_create_metadata")],
  ["MonolithDb::new", "metadata.json in the database directory"])
P("C09", "Concurrent writers have the effect of some one-after-another order",
  "When several threads write to the same database or chunk at once, every acknowledged sample is stored exactly once in its own series, each distinct label set becomes exactly one series with its own identifier, and every series can be found by each of its labels and by its full label set. No interleaving loses a sample, splits or merges series, or blocks for ever.",
  ["schedules", "histories"],
  "Every interleaving of two to four writers at the level of backend operations, over shared and separate series.",
  "One test runs two threads on disjoint random series under whatever schedule the machine produces.",
  ["src/chunk/chunk.rs", "src/db.rs", "src/common/mod.rs"],
  [("chunk write lock", "src/chunk/chunk.rs insert"), ("id generator", "src/common/mod.rs IdGenerator")],
  ["Chunk::insert", "MonolithDb::write_time_points", "MonolithDb::query"])
P("C10", "Queries running beside writes and rollovers see each sample once",
  "A query that runs while other threads write and while the active chunk is being replaced returns every matching sample acknowledged before the query began, no sample twice, nothing that was never written, and each series once in time order. It is never answered with an error or an incomplete result because of the concurrent activity.",
  ["schedules", "histories"],
  "Every interleaving of queries, writers and rollovers at the level of backend operations.",
  "No test queries while a write or a rollover is in progress.",
  ["src/db.rs", "src/chunk/chunk.rs"],
  [("locks around the current and closed chunks", "src/db.rs query, swap"), ("chunk lock", "src/chunk/chunk.rs query")],
  ["MonolithDb::query"], (), "a guarded way to trigger a rollover at a chosen time")
P("C11", "A failed backend write is never acknowledged and can be retried",
  "If the shared store fails any write or read while samples are being written or a chunk is being opened, the operation that needed it reports an error instead of success. Once the store works again, repeating the failed operation succeeds (a repeated single sample that had in fact been stored may be reported as already there), and from then on all acknowledged samples are found by every label of their series, also after reopening.",
  ["fault_sequences", "histories"],
  "Every placement of one or more failed requests (lost request or lost answer) in any history of writes and rollovers on the TiKV backends.",
  "Tests use a store that cannot fail.",
  ["src/chunk/chunk.rs", "src/indexer/tikv_indexer.rs", "src/storage/tikv_storage.rs", "src/backend/tikv.rs", "src/db.rs"],
  [("error propagation from the store", "src/chunk/chunk.rs insert, src/indexer/tikv_indexer.rs create_index"), ("order in which index entries are written", "src/indexer/tikv_indexer.rs create_index")],
  ["MonolithDb::write_time_points", "MonolithDb::query"])
P("C12", "A failed backend read is never passed off as an answer",
  "If the shared store fails a request that a query needs, the query reports an error; it never returns a result that lacks matching samples or contains series that do not match. The same query gives the complete answer once the store works again.",
  ["fault_sequences", "histories"],
  "Every placement of failed requests in queries over any stored data on the TiKV backends, directly and through the remote read endpoint.",
  "Tests use a store that cannot fail.",
  ["src/db.rs", "src/server.rs", "src/chunk/chunk.rs", "src/indexer/tikv_indexer.rs", "src/storage/tikv_storage.rs"],
  [("error propagation from the store", "src/indexer/tikv_indexer.rs get_series_id_contains_labels, src/db.rs query, src/server.rs query")],
  ["MonolithDb::query", "remote read endpoint"])
P("C13", "What Prometheus writes over HTTP it reads back",
  "A snappy-compressed remote-write request answered with success whose samples increase in time within each series makes every sample in it that lies in the active window available to remote reads. A remote-read response carries one result per query, in the order of the queries, and each result holds exactly the samples written so far that match that query's equality matchers and closed time range (negative bounds included), with exact labels, sorted by name, timestamps and value bits (except the sign of zero, which proto3 messages do not carry).",
  ["inputs", "histories"],
  "Every sequence of well-formed write and read requests with any number of series, samples and queries.",
  "The server has no test beyond reading a configuration file.",
  ["src/server.rs", "src/proto/remote.rs", "src/proto/types.rs", "src/common/label.rs", "src/common/time_series.rs", "src/common/time_point.rs"],
  [("request decoding and dispatch", "src/server.rs _process"), ("conversion between wire and internal types", "src/common/*.rs From impls")],
  ["HTTP POST on the write and read paths"])
P("C14", "No request can take the server down or be half accepted",
  "Whatever bytes arrive on a connection - bodies that are empty, not snappy, truncated, or not valid protobuf, unknown paths and methods, broken transfer encodings, connections cut in mid-request, extreme timestamps and ranges - the server stays up and goes on answering well-formed requests correctly; a client that stops in mid-request occupies one worker at most. A write request whose body cannot be decoded completely is answered with an error status and stores nothing; a read request that cannot be decoded is answered with an error status; a path that is neither the read nor the write path is answered with 404.",
  ["inputs", "histories"],
  "Every byte sequence as request, alone and mixed with well-formed requests.",
  "No test sends a request to the server.",
  ["src/server.rs", "src/db.rs", "src/storage/common.rs"],
  [("request handling on the worker pool", "src/server.rs serve, _process")],
  ["HTTP connections to the server"])
P("C15", "Compaction is lossless",
  "For the Gorilla and the uncompressed compaction type, compacting any sequence of samples with non-decreasing timestamps, one by one or as a whole, and decompacting the resulting bytes yields exactly the same sequence: same length, timestamps and value bits, for any time steps and any 64-bit float patterns. Bytes taken in the middle decompact to exactly the samples added so far.",
  ["inputs"],
  "Every sample sequence of any length, arbitrary time steps up to 64 bits, arbitrary value bit patterns, both the Gorilla and the uncompressed form.",
  "Six hand-made sequences of three to five samples with small steps are checked, the values only by magnitude.",
  ["src/compaction/mod.rs", "src/compaction/gorilla.rs"],
  [("delta-of-delta and XOR encoding", "src/compaction/gorilla.rs GorillaCompactor"), ("decoder", "src/compaction/gorilla.rs GorillaDecompactor"), ("bit stream", "src/compaction/mod.rs Bstream, BstreamSeeker")],
  ["Compactor::compact", "Compactor::compact_vec", "Compactor::get_bytes_vec", "Decompactor::from", "Decompactor::decompact"])
P("C16", "Damaged compacted data is handled, not fatal",
  "Decompacting arbitrary, truncated or bit-flipped bytes returns an error or some list of samples; it never panics or runs on without end, and bytes whose type tag does not match the requested type are always refused. Data damaged only after some point still decodes the samples encoded before that point.",
  ["inputs"],
  "Every byte string, and every truncation or mutation of a valid encoding.",
  "One test passes three bytes with a wrong tag.",
  ["src/compaction/mod.rs", "src/compaction/gorilla.rs"],
  [("bounds and tag checks in the decoder", "src/compaction/mod.rs Decompactor::from, BstreamSeeker, src/compaction/gorilla.rs")],
  ["Decompactor::from", "Decompactor::decompact"])
P("C17", "Chunks sharing one key-value store never see each other's data",
  "Storages and indexers of different chunks placed in the same shared store behave as if each had a store of its own: whatever is written through one is invisible to all others, whatever the series identifiers and labels. Each chunk opened again under its identifier finds its own series and samples, regardless of the order in which storages and indexers of the chunks were first opened.",
  ["histories", "inputs", "configurations"],
  "Every set of chunk identifiers, every interleaving of opening, writing, reopening and reading storages and indexers.",
  "Tests build the components by hand with fixed identifiers in a store of their own and bypass the code that assigns identifiers.",
  ["src/backend/tikv.rs", "src/storage/tikv_storage.rs", "src/indexer/tikv_indexer.rs"],
  [("per-chunk component identifiers", "src/backend/tikv.rs init_component"), ("key prefixing", "src/storage/tikv_storage.rs, src/indexer/tikv_indexer.rs")],
  ["TiKvStorageBuilder / TiKvIndexerBuilder build and read_from_chunk", "Storage and Indexer operations"])
P("C18", "Chunk directory names and chunk metadata survive a round trip",
  "The name of a chunk directory determines its start and end time exactly: decoding an encoded pair gives the pair back for all 64-bit values, different pairs have different names, and names that are not of this form are refused without a crash. Chunk options written to a directory are read back unchanged; a missing or damaged options file gives an error.",
  ["inputs"],
  "All pairs of 64-bit times, arbitrary strings as names, arbitrary identifiers and damaged files.",
  "One pair of times and one default options value are tried.",
  ["src/common/utils.rs", "src/chunk/chunk.rs"],
  [("128-bit hexadecimal name", "src/common/utils.rs encode_chunk_dir, decode_chunk_dir"), ("JSON options file", "src/chunk/chunk.rs ChunkOpts")],
  ["utils::encode_chunk_dir", "utils::decode_chunk_dir", "ChunkOpts::write_config_to_dir", "ChunkOpts::read_config_from_dir"])
P("C19", "Intersecting series-id lists gives exactly the common ids",
  "For any number of ascending id lists, of any lengths, the intersection returned is exactly the ascending list of ids present in all of them; with no list it is empty. Every run on the same input gives the same answer.",
  ["inputs", "schedules"],
  "Every number of lists (odd and even, to several dozen), any overlap, empty lists included.",
  "Tests intersect nested prefixes of one sequence, for five list counts.",
  ["src/common/utils.rs", "src/common/mod.rs"],
  [("divide-and-conquer intersection on threads", "src/common/utils.rs intersect_time_series_id_vec"), ("merge of two lists", "src/common/mod.rs order_intersect")],
  ["utils::intersect_time_series_id_vec", "OrderIntersect::order_intersect"])
P("C20", "A write-ahead log segment holds every entry, whole and in order",
  "For the immediate, count-based and size-based flush policies, any sequence of log entries written to a segment and flushed is found in its output as the magic number followed by exactly those entries, in order, each with its sequence number, type, length, content and a CRC-32 of the content. Nothing else is written (apart from a checksum when the segment is closed) and nothing is lost, buffered entries included; contents longer than 65535 bytes are refused with an error, with the immediate policy an entry is in the output when the write returns, and a policy's buffer never holds more than its limit allows.",
  ["inputs", "histories"],
  "Every sequence of entries with contents up to 65535 bytes, every limit, every placement of flushes.",
  "One test writes a single entry under the immediate policy.",
  ["src/wal/mod.rs", "src/wal/segment.rs"],
  [("entry framing", "src/wal/mod.rs Entry::get_bytes"), ("flush cache", "src/wal/segment.rs")],
  ["bytes that reach the segment's writer"], (), "guarded public access to the log module")
P("C21", "Equality and hashing of labels and samples mean what they say",
  "Two label sets are equal exactly when they hold the same labels in the same order, and two labels when names and values are the same; comparing never panics, equality is symmetric and transitive, and equal values hash alike, so label sets can be used as map keys. Two samples are equal only if their timestamps are equal and their values differ by less than a small margin.",
  ["inputs"],
  "Every pair and triple of label sets (prefixes of each other included) and samples.",
  "The unit tests only print a hash; other tests compare samples with an equality that accepts any two values.",
  ["src/common/label.rs", "src/common/time_point.rs"],
  [("hand-written PartialEq, Hash and Ord", "src/common/label.rs, src/common/time_point.rs")],
  ["Labels, Label, TimePoint as values"])
P("C22", "The active window is a closed interval and is enforced",
  "A sample whose timestamp lies in the window of the active chunk, both ends included, is accepted; a single write outside it is refused and changes nothing. A batch stores all its samples that lie inside the window and leaves out the others, without failing because of them.",
  ["inputs", "configurations"],
  "Every window and every timestamp, the ends and their neighbours in particular, single writes and batches, all backends.",
  "Tests never write near the end of a window.",
  ["src/chunk/chunk.rs", "src/db.rs"],
  [("window check", "src/chunk/chunk.rs insert, is_in_range"), ("batch filter", "src/db.rs write_time_points")],
  ["Chunk::insert", "MonolithDb::write_time_point", "MonolithDb::write_time_points", "Chunk::query"])
P("C23", "Resent and late samples never disturb what is stored",
  "When samples arrive again or with timestamps not later than the newest one of their series, as after a retried request, the samples already stored stay exactly as they are, are returned once each in time order for every range, and later samples are still accepted. This holds for both storage backends.",
  ["histories", "inputs", "configurations"],
  "Every history in which any batches are repeated, overlapped or delayed, interleaved with queries.",
  "Tests write each sample once; only one test sends one late sample, to the TiKV storage.",
  ["src/storage/sled_storage.rs", "src/storage/tikv_storage.rs", "src/chunk/chunk.rs"],
  [("check against the last stored timestamp", "src/storage/*_storage.rs write_time_point")],
  ["MonolithDb::write_time_points", "MonolithDb::query", "remote write and read endpoints"])
P("C24", "A remote read honours the operator of each matcher",
  "A remote read either applies every matcher according to its operator (equal, not equal, regular expression, negated regular expression) or is answered with an error; it never returns series that the matchers exclude, nor leaves out series that they select.",
  ["inputs"],
  "Every combination of matchers and operators over any stored series.",
  "No test sends a read request.",
  ["src/server.rs", "src/common/label.rs"],
  [("conversion of matchers to labels", "src/common/label.rs from_label_matcher")],
  ["remote read endpoint"])
P("C25", "A failed rollover leaves the database whole",
  "If opening the storage or the indexer of the next chunk fails, the database keeps answering queries over all data exactly as before and keeps accepting writes in the still active window; a later rollover succeeds and nothing is lost or repeated. Reopening the directory afterwards works and gives the same answers.",
  ["fault_sequences", "histories"],
  "Every placement of failed and successful rollovers in a history of writes, queries and reopenings.",
  "No test replaces a chunk.",
  ["src/db.rs"],
  [("the new chunk is built before it is installed", "src/db.rs swap")],
  ["MonolithDb::query", "MonolithDb::write_time_points"], (), "a guarded way to trigger a rollover at a chosen time")
P("C26", "The active window moves on by itself and windows never overlap",
  "While a database is open it keeps opening new windows about once per configured chunk duration, each that long (to the millisecond) and starting after the end of the one before, so that samples stamped with the current time keep being accepted. Samples accepted in earlier windows stay available throughout, and each stored sample lies within the window of exactly one chunk.",
  ["histories", "configurations"],
  "Every chunk duration and number of rollovers, on a virtual clock.",
  "Tests stop long before the shortest chunk duration has passed.",
  ["src/db.rs"],
  [("timer threads", "src/db.rs new"), ("window of the next chunk", "src/db.rs swap")],
  ["names of the chunk directories", "MonolithDb::write_time_points", "MonolithDb::query"])
P("C27", "Start-up options are taken as given or refused",
  "Every command line whose numeric options are well-formed and whose port lies between 1024 and 65535 yields exactly the configured values, defaults for what is not given, with the chunk size read as seconds. A malformed number or a port outside that range is refused with an error, never altered, truncated or accepted.",
  ["configurations", "inputs"],
  "Every combination of given and omitted options with arbitrary values.",
  "Two tests start the binary with no or one option and look only for a metadata file.",
  ["src/common/option.rs", "src/lib.rs", "src/bin/monolith-server.rs"],
  [("option parsing", "src/common/option.rs get_config")],
  ["DbOpts::get_config", "ServerOpts::get_config"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in OUT:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(OUT), "properties")
