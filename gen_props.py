import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)

p("C01","Search returns exactly the matching documents",
 "For every set of stored documents and every query, a search returns exactly the documents that currently contain at least one of the query's terms in the field that query names (the union over all field queries), each document once, with nothing missing and nothing extra. This holds for any number of documents, terms, repeated terms and field queries, including unknown fields and terms and empty queries, on both the in-memory and the on-disk store.",
 ["inputs","histories","schedules"],"every stored corpus, every list of (field, terms) queries, every interleaving of the search's own internal goroutines",
 "No test calls Search at all; the storage tests look up a few terms of three fixed documents.",
 ["index/InvertedIndex.go","search/Standard.go","storage/Memory.go","storage/DiskStorage.go","model/Set.go"],
 [("term fan-out, de-duplication and batched field fetch","index/InvertedIndex.go Search"),("per-field fan-out and merge","search/Standard.go Search"),("posting lists","storage/*.go UpdateIndex/GetDocuments")],
 ["search.NewStandard(...).Search results","index.NewIndex(...).Search FieldDocuments"])

p("C02","Scores are BM25 of the current corpus and results come ranked",
 "The score of every result equals the BM25 score (k1 1.2, b 0.75, idf = ln(1+(N-n+0.5)/(n+0.5)), summed over the query's terms with repetition and over all field queries, each multiplied by its boost, where boost 0 means 1) computed from the documents currently stored. Scores are finite and positive for positive boosts, and results are in non-increasing score order.",
 ["inputs","histories","schedules"],"every corpus, query, boost and term repetition; every completion order of the per-field searches",
 "No test touches scoring, idf, boosts or ranking.",
 ["similarity/BM25.go","metric/IDF.go","search/Standard.go","index/InvertedIndex.go"],
 [("BM25 formula","similarity/BM25.go"),("idf","metric/IDF.go"),("score merge and sort","search/Standard.go"),("corpus statistics handed to the scorer","index/InvertedIndex.go")],
 ["search.NewStandard(...).Search scores and order","similarity.BM25","metric.IdfBM25"])

p("C03","Field statistics always describe exactly the documents stored",
 "Without a crash, at every moment after a save returns, the number of documents of a field, the field's total length and the number of documents containing each term equal the values recomputed from the latest version of every saved document. Saving a document again, shorter, longer or unchanged, never counts it twice, and the same values are reported by the in-memory store, the on-disk store, and an on-disk store reopened after its data was flushed.",
 ["histories","inputs","configurations"],"every history of first-time and repeated saves over any documents and fields, with flushes, cache evictions and restarts in between",
 "Tests save three documents once each; nothing is saved twice, saved after a flush, or counted across more than one restart.",
 ["storage/Memory.go","storage/DiskStorage.go","storage/DiskIO.go"],
 [("size/length counters","storage/*.go SaveOrUpdate, UpdateFieldSizeLength"),("document-frequency counters","storage/*.go UpdateNumberFieldTerm"),("periodic persistence of both","storage/DiskIO.go SaveFieldSizeLengthOnDisc, SaveNumberFieldTermOnDisk")],
 ["GetFieldSize","GetFieldLength","GetNumberFieldTerm"])

p("C04","Saving a document field again replaces it and touches nothing else",
 "After a document's field is saved again, that field reads back as exactly the new version, searches no longer find the document through terms the new version lost, and do find it through terms it gained. A term that no document has any more is unknown again. Every other field of the document and every other document is unaffected, even if the document had meanwhile been flushed to disk, evicted from the cache, or the store had been reopened.",
 ["histories","inputs","configurations"],"every history of saves and re-saves, any cache capacity, any placement of flushes and restarts between them",
 "No test saves any (document, field) twice, and the on-disk tests hold at most five documents in a cache of five.",
 ["storage/Memory.go","storage/DiskStorage.go","cache/LRU.go","index/InvertedIndex.go"],
 [("merge of the new field into the stored document","storage/DiskStorage.go UpdateFieldDocument, storage/Memory.go createFieldDocument"),("posting maintenance","storage/*.go UpdateIndex")],
 ["GetFields","Search results before and after a re-save"])

p("C05","Answers do not depend on the backend, the cache size or flush timing",
 "For the same history of saves, the on-disk store answers every read and every search exactly as the in-memory store does, whatever its cache capacity (zero included) and wherever in the flush cycle the read happens. A completed save is visible to the very next read.",
 ["histories","configurations","inputs"],"every history of saves, reads and pauses; every cache capacity from 0 up; every phase of the background flush timers",
 "Tests always use a cache at least as large as the corpus and read only after a 20 s pause, so an evicted, not yet flushed or stale document is never read.",
 ["storage/DiskStorage.go","storage/DiskIO.go","cache/LRU.go"],
 [("read-through document cache","storage/DiskStorage.go GetFields, UpdateFieldDocument"),("delayed document writer","storage/DiskIO.go SaveDocumentFieldOnDisk")],
 ["GetFields","GetDocuments","GetIndex","Search on both stores"])

p("C06","Everything saved survives a restart",
 "Once 20 seconds have passed without a save, reopening the store from its directory yields the same documents, statistics, search results and scores as before, over any number of restart cycles and any splitting of the saves among flush periods and sessions.",
 ["histories","configurations"],"every history of saves split over any number of sessions and flush periods, then a restart",
 "Tests restart once after one batch written within a single flush period; nothing is saved across two flush periods of the same session and then reloaded.",
 ["storage/DiskStorage.go","storage/DiskIO.go","storage/Serialize.go","file/File.go"],
 [("four periodic writers","storage/DiskIO.go Save*"),("loaders at open","storage/DiskIO.go Load*, storage/DiskStorage.go NewDiskStore")],
 ["a store opened by NewDiskStore on the directory of an earlier one"])

p("C07","A crash at any point leaves an openable store that kept all durable data",
 "If the process is killed at any instant, including between or in the middle of its file operations, the next open succeeds, every document version that was saved at least 20 seconds before the kill is read back complete (or replaced by a later saved version) and is found by its terms, and no document, term or field value appears that was never saved. Each field statistic read back is one that the store really had at some moment from 20 seconds before the kill on, and searches give every hit a finite, positive score. The reopened store accepts the lost documents again and serves and persists them, and its statistics count at least the document just saved.",
 ["crash_points","histories"],"every file-system operation (and torn write) of every history of saves, flushes and merges as the kill point",
 "No test interrupts anything.",
 ["file/File.go","storage/DiskIO.go","storage/DiskStorage.go"],
 [("replace-by-rename of each file","file/File.go SecureSaveFile"),("index fragments merged and only then deleted","storage/DiskIO.go SaveIndexOnDisk, LoadIndexOnHD")],
 ["a store reopened after SIGKILL of the writing process"])

p("C08","Background flushing and merging never lose, invent or pile up data",
 "At any moment while a store runs, the data recoverable from its directory contains every term posting and document version saved 20 or more seconds earlier, contains nothing that was never saved, and never loses a posting that was recoverable before. Once the store is idle for 40 seconds no unmerged index fragments remain.",
 ["histories","schedules"],"every history of saves over many flush and merge cycles, including the instants at which flush and merge run together; every interleaving of the background writers",
 "Tests look at the directory once, 20 s after the only batch; flush and merge first coincide after 195 s, which no test reaches.",
 ["storage/DiskIO.go","storage/DiskStorage.go","file/File.go"],
 [("fragment writer","storage/DiskIO.go SaveIndexOnDisk"),("fragment merger","storage/DiskIO.go LoadIndexOnHD and the merge loop in NewDiskStore")],
 ["the store directory, opened from a copy at quiescent instants"])

p("C09","Concurrent saves and searches are race-free and never bring the process down",
 "Any number of goroutines may save documents, read statistics, postings and fields and run searches on one shared store and index, while the background writers run, without a data race, a crash or a deadlock. When they are done, the store answers exactly as if the saves had been made one after another.",
 ["schedules","histories"],"every interleaving of concurrent savers, readers, searchers and the store's background writers",
 "Every test uses the store from one goroutine.",
 ["storage/DiskStorage.go","storage/Memory.go","storage/DiskIO.go","cache/LRU.go","index/InvertedIndex.go","search/Standard.go"],
 [("store lock","storage/DiskStorage.go, storage/Memory.go"),("cache lock","cache/LRU.go"),("hand-over to the writers","storage/DiskIO.go")],
 ["Go race detector","process exit","store contents after the workload"])

p("C10","Concurrent saves and reads are linearizable; concurrent scores stay sane",
 "Every field-level save and every read of a field's documents, postings and statistics appears to take effect atomically at some point between its call and its return. A search that runs concurrently with saves returns every document whose matching field was saved before the search began and not changed since, returns only documents that matched at some time during it, and gives each a finite score.",
 ["schedules","histories"],"every interleaving of concurrent saves, reads and searches on both stores",
 "No test is concurrent.",
 ["storage/DiskStorage.go","storage/Memory.go","index/InvertedIndex.go","cache/LRU.go"],
 [("save applies postings, counters and document together","storage/*.go SaveOrUpdate"),("order in which a search reads postings and statistics","index/InvertedIndex.go Search")],
 ["call/return histories at the storage and search API"])

p("C11","Stored formats decode to exactly what was encoded",
 "For each of the four stored record kinds (field totals, document frequencies, document fields, term postings), decoding an encoded value gives back an equal value for every input: empty collections, empty, very long, non-UTF-8 or zero-byte-containing strings, and any counts that fit in 32 bits. Compression followed by decompression is the identity on every byte string. Both hold from any number of goroutines.",
 ["inputs"],"every value of every record kind, with counts in the signed 32-bit range; every byte string",
 "Tests exercise the encoders only through three small ASCII documents.",
 ["storage/Serialize.go","storage/buffers","file/File.go"],
 [("flatbuffers encoders/decoders","storage/Serialize.go"),("gzip","file/File.go CompressData, DecompressData")],
 ["Serialize*/Deserialize* pairs","CompressData/DecompressData"])

p("C12","Any document id, field name or term is kept apart and kept inside the store",
 "Documents and fields whose ids or names contain arbitrary bytes (path separators, dot segments, zero bytes, names that look like the store's own files, ids of any length, field names whose encoding fits a file name) are stored, flushed and reloaded like any others: distinct ids and names never overwrite or shadow each other. The store never creates, changes or deletes a file outside its directory and never stops the process because of a name.",
 ["inputs","histories"],"every document id, every field name of at most 80 bytes, every term, in any combination within one store",
 "Tests use the ids 1 to 5 and three plain field names.",
 ["storage/DiskIO.go","file/File.go","storage/DiskStorage.go"],
 [("mapping of ids and names to file names","storage/DiskIO.go, file/File.go")],
 ["GetFields/Search/statistics before and after a restart","the directory tree around the store"])

p("C13","The LRU cache is a linearizable bounded map with exact LRU eviction",
 "A cache of capacity n holds at most the n most recently used keys: a get or a put makes its key the most recent, only a put of a new key into a full cache evicts, and it evicts exactly the least recently used key. A get returns the value of the latest put of that key, unaffected by later puts, and all this holds under any concurrent use without data races, for every capacity including zero.",
 ["histories","schedules","configurations"],"every sequence and every interleaving of gets and puts, every capacity",
 "No test uses the LRU cache directly; the store tests never fill it or share it.",
 ["cache/LRU.go"],[("list + map under a lock","cache/LRU.go Get, Put")],["LRUCache Get/Put results"])

p("C14","Refreshing caches publish every put within two periods, latest value wins",
 "In both periodically refreshed caches a put never blocks forever and its value becomes readable within 6 seconds and stays readable until a newer put of the same key replaces it; reads never return a value that was never put, never go back to an older value of a key, and never lose a key. All this holds under concurrent puts and gets of any number of keys without data races.",
 ["histories","schedules"],"every history and interleaving of puts and gets over any number of refresh periods, including bursts larger than the internal queue",
 "The one test puts three keys and overwrites one from a single goroutine, in one of the two caches.",
 ["cache/RCU.go","cache/Map.go"],[("copy-and-swap writer","cache/RCU.go writer"),("buffered writer","cache/Map.go writer")],["Get results over virtual time"])

p("C15","Sharded and local maps behave as one linearizable map",
 "A key always maps to the same existing shard for any positive number of shards; values set through a shard are read back until overwritten, keys of different shards or the same shard never disturb each other, and a value or whole-shard snapshot obtained earlier does not change when keys are overwritten. This holds under concurrent sets, gets and snapshots without data races.",
 ["inputs","schedules","histories"],"every key string, shard count, and interleaving of sets and gets",
 "The one test uses four keys and three shards sequentially.",
 ["cache/Shard.go","cache/LocalMap.go"],[("crc32 routing","cache/Shard.go getShardId"),("locked map","cache/LocalMap.go")],["Shard.Get, LocalMap.Set/Get/GetData"])

p("C16","Text analysis is total, element-wise, order-preserving and deterministic",
 "Tokens are exactly the maximal runs of letters, numbers and apostrophes of the text, in order; each filter maps tokens independently of their neighbours and in order (lower-casing, stop-word removal against the given list, the built-in English and Portuguese lists being fixed, Porter2 stemming, removal of combining marks), and term frequencies count every token once. For every text, of any size or script, analysis never fails, gives the same result each time and from any number of goroutines, equals the concatenation of analysing its whitespace-separated parts, and ignores letter case.",
 ["inputs","schedules"],"every text (any Unicode, any length), every list of tokens, every interleaving of the per-token stemming goroutines and of concurrent callers",
 "Tests analyse a dozen ASCII words.",
 ["tokenizer/Standard.go","filter","language","metric/TF.go"],
 [("tokenizer predicate","tokenizer/Standard.go"),("filters","filter/*.go"),("stop lists","language/*.go"),("counting","metric/TF.go")],
 ["Tokenize/Process/TermFrequency outputs"])

p("C17","JSON documents flatten to exactly their leaves; ids are extracted faithfully",
 "Flattening a JSON object yields one entry per non-object leaf, keyed by the dot-joined path to it, with its value unchanged and nothing added, at any nesting depth, and leaves the input unmodified. The extracted id is the top-level Id as plain text (a string as it is, a number in plain decimal digits, exact for integers up to 2^53) and empty when there is none or it is null. Text that is not a JSON object is refused, never read in part.",
 ["inputs"],"every JSON object, any nesting, any keys and value types",
 "Tests only flatten one-level objects with string values.",
 ["field/FieldProcess.go"],[("recursive flatten","field/FieldProcess.go recFlatten"),("id lookup","field/FieldProcess.go GetID")],["StringToObject, Flatten, GetID results"])

p("C18","The HTTP service answers every request correctly, also concurrently",
 "Every well-formed index request is acknowledged with 201 and its document is found by the next query for its title or text words; malformed requests and requests without an id get a 4xx and change nothing. Every query gets a 200 response holding the best matching documents in non-increasing BM25 order, at most ten, whatever the number of matches, and says how many it holds; this holds under concurrent requests without data races, and again after the service is killed and restarted on the data it flushed.",
 ["inputs","histories","schedules","crash_points"],"every sequence and interleaving of index and query requests, any number of matches, and a restart",
 "The main package has no tests.",
 ["main.go","index/InvertedIndex.go","search/Standard.go","storage/DiskStorage.go"],
 [("handlers","main.go main"),("text pipeline","main.go Preprocessing")],["HTTP responses of the built server binary","Go race detector"])

p("C19","Every search terminates and leaves nothing running",
 "A search over any corpus and query, on a store whose reads may be arbitrarily slow, returns after finitely many store reads, and when it returns every goroutine it started has finished or will finish without any further input. Two searches in flight never wait for each other.",
 ["inputs","schedules"],"every number of terms, field queries, documents and batches relative to the internal channel and semaphore sizes; every delay of the underlying store",
 "No test calls Search.",
 ["index/InvertedIndex.go","search/Standard.go"],
 [("semaphore and channels of the two-stage fan-out","index/InvertedIndex.go Search"),("per-field fan-out","search/Standard.go Search")],
 ["return of Search; goroutines alive afterwards"])

p("C20","Replacing a file is atomic for readers, crashes and errors",
 "While a file is being replaced, every concurrent reader sees the complete old or the complete new content and never a missing, empty or partial file; a process killed at any point during the replacement leaves the complete old or new content under the file's name. If the replacement reports success the new content is in place, and if any step fails it reports an error and the complete old or new content is still there.",
 ["crash_points","fault_sequences","schedules"],"every file-system operation of the replacement as the kill point, torn write or failing operation; every interleaving with readers; any content and size",
 "No test reads during, interrupts or fails a replacement.",
 ["file/File.go"],[("write temp then rename","file/File.go SecureSaveFile")],["file content seen by readers and after a kill or an error"])

p("C21","A failing disk never damages data that was already persisted",
 "If any single file-system operation of a running store fails (no space, I/O error, short write), the process may stop, but every document, posting and statistic that was durable before the failure is still there, complete (or replaced by later saved ones), when the store is opened again after the fault is gone, the open succeeds, and nothing appears that was never saved. A store that does not stop still persists everything saved to it, before and after the failure.",
 ["fault_sequences","histories"],"every file-system operation of every history of saves, flushes and merges as the failing operation; errors ENOSPC, EIO, EACCES and short writes",
 "No test injects any fault.",
 ["file/File.go","storage/DiskIO.go"],
 [("error propagation and fail-stop of the writers","storage/DiskIO.go, file/File.go")],["a store reopened after the faulty run"])
p("C22","Saved inputs and returned answers share nothing with the store",
 "A save takes a copy: whatever the caller later does to the field, term counts or lists it passed, the stored document, its postings and the flushed files stay as they were at the call. Every answer (fields, postings, index, document numbers, search results) is a snapshot: later saves, flushes and evictions never change it, and changing its maps, sets and lists (the term counts inside a returned field excepted) changes neither the store nor any other answer. No save, read or search changes its arguments. All this holds on both stores and under concurrent use without data races.",
 ["histories","inputs","schedules"],"every history of saves, reads, searches, pauses and restarts in which callers reuse what they passed and keep or change what they got",
 "Tests pass fresh literals and look at each answer once, at once.",
 ["storage/Memory.go","storage/DiskStorage.go","model/Field.go","model/Set.go","index/InvertedIndex.go","search/Standard.go"],
 [("copy on save","storage/*.go SaveOrUpdate, model/Field.go Copy"),("copies of postings and indexes","storage/*.go GetDocuments, GetIndex, model/Set.go Copy"),("copy on write of stored documents","storage/DiskStorage.go UpdateFieldDocument")],
 ["arguments and answers of every call of the storage, index and search API, compared later"])

p("C23","Nothing piles up: resources depend on the data, not on the work done",
 "However often the same documents are saved again, searched and read (also with terms, fields and documents that do not exist), and however often caches of bounded content are written or texts analysed, the process's goroutines, open files and live memory and the number and size of the files in the store directory stay what they were after the first few rounds, once the store is idle.",
 ["histories","configurations"],"every number of rounds of any work on a fixed set of documents, fields and terms, any cache capacity",
 "Tests never measure anything and run each operation a few times.",
 ["storage/DiskStorage.go","storage/DiskIO.go","storage/Memory.go","cache/*.go","index/InvertedIndex.go","search/Standard.go","filter/*.go"],
 [("buffers emptied by each flush","storage/DiskIO.go"),("fragments deleted after a merge","storage/DiskIO.go LoadIndexOnHD"),("goroutines of a search","index/InvertedIndex.go, search/Standard.go"),("eviction","cache/LRU.go")],
 ["runtime.NumGoroutine, live heap after collection, /proc/self/fd, the store directory"])

p("C24","Stores and caches of one process are independent of each other",
 "Any number of in-memory and on-disk stores (with directories of their own) and caches in one process, holding the same document ids, fields, terms and keys with different content, each answer exactly as if it were alone, whatever is saved, flushed, merged, evicted or reopened in the others, one after another or at the same time.",
 ["histories","schedules","configurations"],"every interleaving of histories on several stores and caches",
 "Every test has one store at a time.",
 ["storage/DiskStorage.go","storage/DiskIO.go","storage/Memory.go","cache/*.go"],
 [("per-store state and directory","storage/DiskStorage.go NewDiskStore, storage/DiskIO.go"),("the process-wide merge lock","storage/DiskIO.go LoadIndexOnHD")],
 ["every read and search of every store, against a model of its own"])

p("C25","A damaged file is noticed, never served as data",
 "If the content of any of the store's files is damaged (flipped bits, truncation, zeroed, missing, overwritten or appended bytes), or a file or folder of it cannot be read or written, whether between two runs or under a running store, then every answer given afterwards is the one the undamaged store gives, or the open or the read fails visibly (an error, or the process stops). Wrong, partial or invented data is never returned and never written over good data.",
 ["inputs","fault_sequences"],"every damage of the content of every file of every store",
 "No test opens a damaged store.",
 ["file/File.go","storage/DiskIO.go","storage/Serialize.go"],
 [("checksummed compression","file/File.go CompressData, DecompressData"),("error handling of the loaders","storage/DiskIO.go Load*")],
 ["answers and exit of a process that opens the damaged store, compared with the undamaged one"])
p("C26","A slow disk changes nothing",
 "However long any of a running store's file operations take while clients keep saving, reading and searching, every save and read completes once the operations do, every read meanwhile sees exactly the completed saves of its own documents, no flush or merge leaves anything out because clients or other writers got in between its file operations, and once 20 seconds have passed, reopening gives exactly what was saved.",
 ["schedules","histories","fault_sequences"],"every assignment of durations to the file operations of every background writer, merge and read, every history of clients meanwhile",
 "Tests run on a fast disk and do nothing while a flush or merge is under way.",
 ["storage/DiskStorage.go","storage/DiskIO.go","file/File.go"],
 [("each writer holds its lock around snapshot and reset of its buffer","storage/DiskIO.go background writers"),("the merge deletes what it has read, and nothing else","storage/DiskIO.go LoadIndexOnHD"),("locks between writers, merges and readers","storage/DiskStorage.go, storage/DiskIO.go")],
 ["reads, searches and the reopened content of a process whose file operations are held up at random, against the saves"])

p("C27","Stored data stays readable: the formats are the published ones",
 "A store directory in the published formats (FlatBuffers tables of schema/*.fbs, compressed with gzip; docs/metrics/<id>, <field>/metrics, <field>/nfterm, <field>/index, <field>/temp/*, special bytes of names percent-encoded, long ids hashed), whether written by an earlier version of the library or by any other program, opens with exactly the documents, statistics and postings it holds, unmerged fragments included, and can be saved to and reopened. The files an idle store leaves are in these formats in turn: a reader that knows nothing but them finds exactly what was saved.",
 ["inputs","histories","configurations"],"every content of a store, every valid encoding of it, every division of the postings among index and fragments, every history after opening it",
 "Tests read back only what the same build wrote; a change of format on both sides at once passes.",
 ["storage/Serialize.go","storage/DiskIO.go","storage/buffers/*.go","file/File.go","schema/*.fbs"],
 [("encoders and decoders","storage/Serialize.go"),("names and places of the files","storage/DiskIO.go, file/File.go"),("generated accessors","storage/buffers/*.go")],
 ["a store opened on a directory written independently or by the original version","the files read by an independent decoder"])

p("C28","Reading changes nothing",
 "Searches and reads - of known and unknown documents, fields and terms, in any number, order and combination, concurrent or not, at any moment of the flush cycle - change nothing that can be observed later: a store that was read gives the same answers as one with the same history that was not read, a repeated question gets the same answer, no term, document, field, file or folder comes into being because it was asked for, the content of the store's directory is the same with and without reads, and both reopen to the same state.",
 ["inputs","histories","schedules"],"every sequence of reads and searches, of any names, placed anywhere in any history of saves, flushes and restarts, on both backends",
 "A side effect of a read shows only in later answers or on disk, after a flush; tests read once and compare that answer.",
 ["storage/DiskStorage.go","storage/Memory.go","storage/DiskIO.go","index/InvertedIndex.go","search/Standard.go","cache/LRU.go"],
 [("lookups do not insert","storage/DiskStorage.go, storage/Memory.go"),("reading a document fills only the cache","storage/DiskStorage.go getFieldDocument"),("no folders are made for unknown fields","storage/DiskIO.go")],
 ["answers of two stores with equal histories, one of them read","their directories, read independently"])

p("C29","A store is its folder, wherever that lies and however its path is written",
 "A store works in any folder: existing or not, with parents or without, with any name the file system takes, deeply nested, reached through symbolic links, and written relative or absolute, with or without a trailing slash, with doubled slashes or dots, and differently each time it is opened. Everything a store knows is in that folder and nothing of it elsewhere: after moving or copying the folder, opening it at the new place gives the same store, what is done there does not show in the original, and a new store at the old place is empty. Files in or next to the folder that are not the store's do no harm and are left alone.",
 ["inputs","configurations","histories"],"every folder, every way to write its path, every sequence of sessions, moves and copies",
 "Every test uses one fixed relative path.",
 ["storage/DiskIO.go","storage/DiskStorage.go","file/File.go"],
 [("paths are joined from the given root","storage/DiskIO.go, file/File.go SecureSaveFile"),("the root is created with its parents","storage/DiskIO.go NewDiskIO, file/File.go CreteDirIfNotExist"),("only folders count as fields","file/File.go ListDirectories")],
 ["the store's answers under each path","the folder's content at its canonical path, read independently","everything else in the surrounding folder"])

p("C30","Reopening needs no closing: an idle store does no harm",
 "A store has no close operation. A directory may therefore be opened again in the same process while stores opened on it earlier still exist, as long as these have not been saved to for 20 seconds and are not saved to again, and several times at once. Every such open succeeds with exactly what was saved before; the newest store then answers exactly; nothing that the idle ones do in the background, and no read or search of them, changes, delays or undoes what it stores, on disk or in its answers; fragments are still merged; and what a later process finds is exactly what was saved.",
 ["histories","schedules"],"every chain of openings of one directory, every interleaving of the background work of all stores alive",
 "Tests reopen at once and look away before any background work runs.",
 ["storage/DiskStorage.go","storage/DiskIO.go"],
 [("writers write only what was saved to their store since their last flush","storage/DiskIO.go Save*"),("merges of one process take turns and start from the disk","storage/DiskIO.go LoadIndexOnHD, mergeMu")],
 ["the answers of the newest store","the folder, read independently at rest"])

p("C31","UpdateIndex lists a document under terms and touches nothing else",
 "UpdateIndex lists the given document under every term of the given field, in addition to whatever is listed: neither the documents listed there before nor what other fields and terms list changes, and doing it again, or for a version that was saved, adds nothing. Stored documents keep reading back as they were saved, and a document that is only listed, or listed under terms its saved version lacks, is not found by searches. A listing under a term that the document's saved versions lack stays through later listings, saves, concurrent use and, on disk and once 20 seconds have passed, restarts; documents and fields never saved can be listed too.",
 ["inputs","histories","schedules"],"every interleaving of listings, saves, searches, flushes and restarts on either store",
 "Tests list two documents under a few terms and look at once.",
 ["storage/DiskStorage.go","storage/Memory.go","storage/DiskIO.go","model/Set.go"],
 [("postings are sets that only grow by listing","storage/DiskStorage.go updateIndex, storage/Memory.go updateIndex"),("what is listed goes to the index writer","storage/DiskStorage.go indexCh, storage/DiskIO.go SaveIndexOnDisk")],
 ["postings of every term","the field index","documents","search hits"])

open('properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
