"""Per-property settings of check.py and the texts of MANIFEST.json (gen_manifest.py)."""
HIST = ("A case is one pseudo-random history (from the seed and the case number) run on the real code; non-trivial: at least three "
        "saves. Distinct by a hash of the generated universe, history size and configuration.")
VT = "The virtual clock of Go's testing/synctest, in which the store's flush and merge tickers run, behaves like real time."
REF = "The 60-line reference model in harness/ref.go (latest version per document field) is right."

CONFIG = {
    "C01": dict(level="exploration", rule=HIST, floor={"searches_compared": 500, "hits_compared": 500, "restarts": 20},
                technique="runtime monitoring: reference-model monitor over randomized virtual-time histories",
                note="Every search of thousands in hundreds of random histories, on both backends, across flushes and restarts, is compared "
                     "with a reference model. Trusts the model; says nothing about inputs not generated.", assumptions=[REF, VT]),
    "C02": dict(level="exploration", rule=HIST, floor={"searches_compared": 500, "score_formula_checks": 500},
                technique="runtime monitoring: score oracle recomputed from a reference model",
                note="Every score and the order of every result list is recomputed independently (relative tolerance 1e-9).", assumptions=[REF, VT]),
    "C03": dict(level="exploration", rule=HIST, floor={"statistics_compared": 1000, "resaves": 100, "restarts": 20},
                technique="runtime monitoring: invariant monitor after every save, against recomputed statistics",
                note="Statistics are compared after every single save, at every probe, and after every reopening.", assumptions=[REF, VT]),
    "C04": dict(level="exploration", rule=HIST, floor={"resaves": 200, "fields_compared": 1000, "restarts": 20},
                technique="runtime monitoring: replacement oracle over histories with evictions, flushes and restarts",
                note="Each replacement is followed by the reads it must and must not change.", assumptions=[REF, VT]),
    "C05": dict(level="exploration", rule=HIST, floor={"fields_compared": 1000, "searches_compared": 200},
                technique="runtime monitoring: differential monitor of memory store and disk stores run side by side",
                note="Read-after-write is checked after every save, at random points of the flush cycle, for caches of 0, 1, 2, 3 and 1000 entries.",
                assumptions=[REF, VT]),
    "C06": dict(level="exploration", rule=HIST, floor={"restarts": 100, "fields_compared": 1000},
                technique="runtime monitoring: full-state comparison across restarts in virtual time",
                note="The whole observable state is compared after every restart of multi-session histories.", assumptions=[REF, VT]),
    "C07": dict(level="fault_enumeration", tracer=True, floor={"kill": 50, "torn": 50, "durable_versions_found": 200},
                rule="A case is one pseudo-random plan of saves and pauses, executed by a victim process that a ptrace supervisor kills "
                     "before, or in the middle of, its k-th file operation; tiny plans: every k, larger ones: sampled k. Distinct by a hash "
                     "of what each kill hit and how far the plan had come.",
                technique="runtime monitoring with crash injection at system-call level: recovery oracle",
                note="Every kill is judged by reopening what is left on disk. Kills only, no loss of unsynced pages (power failure).", assumptions=[VT]),
    "C08": dict(level="exploration", floor={"snapshots": 300, "postings_tracked": 500},
                rule="A case is one pseudo-random session in virtual time whose directory is copied at random instants, many of them on ticks; "
                     "each copy is opened and judged. Non-trivial: at least two copies. Distinct by instants and progress.",
                technique="runtime monitoring: snapshot oracle over the store directory, with monotonicity across snapshots",
                note="Copies are taken while the background writers are blocked; C07 covers instants inside a flush or merge.", assumptions=[VT]),
    "C21": dict(level="fault_enumeration", tracer=True, floor={"faults": 100, "stopped": 40, "durable_versions_found": 200},
                rule="A case is one pseudo-random plan executed by a victim process whose k-th file operation is made to fail (five errnos, "
                     "or a disk that is full from then on); tiny plans: every k, larger ones: sampled k. Distinct by what each fault hit.",
                technique="runtime monitoring with fault injection at system-call level: recovery oracle",
                note="One injected failure per run; what is left on disk is judged by reopening it without faults.", assumptions=[VT]),
    "C26": dict(level="exploration", tracer=True, fast=("fast",), par=16, floor={"runs": 60, "file_operations": 10000, "reads_compared": 3000},
                rule="A case is one pseudo-random plan of 1-4 clients with document fields of their own, acting in bursts, mostly on the store's "
                     "ticks, in a process two thirds of whose runs have reads held up too; a third of its file operations wait up to 0.3-30 ms. "
                     "Distinct by plan, delay and number of file operations.",
                technique="runtime monitoring with injected delays at system-call level: read-your-writes monitor, reference model after reopening",
                note="The writers run in virtual time (half of the runs) or with a clock 100 times as fast, the delays are real: clients and writers get between any two file operations of a flush or merge.",
                assumptions=[REF, VT]),
    "C09": dict(level="exploration", race="only", fast=("fastrace",), fast_kinds=("fastrace",),
                n={("quick", "race"): 320, ("quick", "fastrace"): 96, ("thorough", "fastrace"): 2000},
                floor={"saves": 1000, "searches": 500, "overlapping_operations": 500, "cases_accelerated": 90},
                rule="A case is a set of 2-8 clients with pseudo-random operations on one store, in virtual time (waking with the store's "
                     "tickers), in real time or in an accelerated clock, under the race detector; non-trivial: at least two operations overlapped. Distinct by seeds.",
                technique="sanitizer: Go race detector over concurrent workloads, plus deadlock detection and a final-state oracle",
                note="Reports what the race detector saw on the interleavings that occurred.", assumptions=[REF, VT]),
    "C10": dict(level="exploration", race=True, n={("quick", "race"): 500, ("thorough", "race"): 15000},
                floor={"operations_checked": 5000, "overlapping_pairs": 2000, "searches_judged": 2000},
                rule="A case is one recorded concurrent history of 2-5 clients on 1-3 documents, checked by porcupine per field, with two "
                     "searchers judged against save intervals; non-trivial: two operations overlapped. Distinct by inputs and outputs.",
                technique="runtime monitoring: recorded histories checked for linearizability (porcupine); interval oracle for searches",
                note="Decides the interleavings that occurred, in a plain and a race build.", assumptions=["porcupine v1.3.1 is right."]),
    "C13": dict(level="exploration", race=True, n={("quick", "race"): 800, ("thorough", "race"): 15000},
                floor={"operations_checked": 20000, "evictions": 1000, "overlapping_pairs": 2000},
                rule="A case is a pseudo-random sequential history compared with a model, a concurrent history checked by porcupine, or a "
                     "stress run; non-trivial: something was evicted or overlapped. Distinct by operations and answers.",
                technique="runtime monitoring: model monitor, linearizability of recorded histories, Go race detector",
                note="Capacities 0 to 500; decides the interleavings that occurred, in a plain and a race build.", assumptions=["porcupine v1.3.1 is right."]),
    "C14": dict(level="exploration", race=True, n={("quick", "race"): 100, ("thorough", "race"): 2000},
                floor={"puts": 5000, "values_seen": 2000},
                rule="A case is a set of writers and three readers on one cache in virtual time, readers and writers often waking exactly at a "
                     "refresh; non-trivial: a published value was seen. Distinct by parameters and number of reads.",
                technique="runtime monitoring: freshness and monotonicity monitor in virtual time, Go race detector",
                note="Bounded form of eventual visibility: 6 virtual seconds.", assumptions=[VT]),
    "C15": dict(level="exploration", race=True, n={("quick", "race"): 400, ("thorough", "race"): 8000},
                floor={"operations_checked": 20000, "keys_mapped": 20000, "overlapping_pairs": 2000},
                rule="A case is a pseudo-random sequential history compared with a model and a concurrent history checked by porcupine.",
                technique="runtime monitoring: model monitor, linearizability of recorded histories, Go race detector",
                note="1 to 69,000 shards, arbitrary byte keys; decides the interleavings that occurred.", assumptions=["porcupine v1.3.1 is right."]),
    "C11": dict(level="exploration", race=True, n={("quick", "race"): 32, ("thorough", "race"): 2000}, floor={"round_trips": 20000},
                rule="A case encodes 30 pseudo-random values of the four record kinds and of byte strings, decodes each at once, again after all "
                     "the others, and from four goroutines. Distinct by kinds and sizes of the values.",
                technique="runtime monitoring: round-trip oracle over generated values, also concurrent, Go race detector",
                note="Values up to 80,000 entries and 1 MB; counts over the whole signed 32-bit range.", assumptions=[]),
    "C16": dict(level="exploration", race=True, n={("quick", "race"): 40, ("thorough", "race"): 2500},
                floor={"texts": 5000, "tokens_compared": 200000, "concurrent_analyses": 10000},
                rule="A case analyses 12 pseudo-random texts stage by stage and as a whole, filters arbitrary token lists, and repeats the texts from "
                     "six goroutines sharing the filters. Distinct by the texts.",
                technique="runtime monitoring: reference analysis and metamorphic oracles (parts, letter case), Go race detector",
                note="Texts of any script, invalid UTF-8 included, tokens up to 100,000 letters. Stemming is compared with the porter2 module itself.",
                assumptions=["The porter2 module and Go's Unicode tables are right."]),
    "C17": dict(level="exploration", floor={"objects": 50000, "leaves_compared": 500000, "ids_compared": 100000, "malformed_texts": 50000},
                rule="A case parses and flattens 40 pseudo-random JSON objects; non-trivial: at least two leaves. Distinct by the objects.",
                technique="runtime monitoring: oracle from an independent leaf-path walk over generated documents",
                note="Objects up to 9,900 levels deep or 70,000 entries wide, and spoiled texts; where two leaves have the same dotted path either value is accepted.",
                assumptions=[]),
    "C12": dict(level="exploration", user=65534, floor={"saves": 2000, "restarts": 400, "ids_used": 1000, "fields_compared": 20000},
                rule="A case is one pseudo-random multi-session history over hostile document ids, field names and terms, in a store nine levels "
                     "deep in a directory full of canary files. Distinct by the names.",
                technique="runtime monitoring: reference-model monitor plus a directory-tree monitor around the store, hostile names",
                note="Runs unprivileged and inside a scratch directory. Names from a grammar of about 130 hostile seeds, their encodings, "
                     "concatenations and lengths up to 70,000 bytes.", assumptions=[REF, VT]),
    "C19": dict(level="exploration", race=True, n={("quick", "race"): 120, ("thorough", "race"): 2000},
                floor={"searches": 3000, "store_reads": 50000, "searches_past_held_ones": 1000, "reads_held": 1000},
                rule="A case runs pseudo-random searches of up to 70,000 terms, 1,800 field queries and 1,500 documents on a store whose reads are "
                     "delayed or held back: two thirds in virtual time, one third with up to 100 searches held. Distinct by shapes and delays.",
                technique="runtime monitoring: goroutine-leak, deadlock and progress monitors over a delaying store",
                note="Virtual time makes arbitrarily long delays and undetected blocking decidable per run; the schedules are those that occurred.",
                assumptions=[VT]),
    "C20": dict(level="fault_enumeration", tracer=True,
                floor={"kill": 150, "torn": 150, "err": 150, "full": 150, "states_checked": 1000, "reads": 5000, "replacements_under_readers": 500},
                rule="A case is one sequence of 1-4 replacements by a process whose every file operation is, one run each, killed, torn, failed and "
                     "followed by a full disk; or a set of readers during 60 replacements, or while each operation is held back. Distinct by what "
                     "was hit or seen.",
                technique="runtime monitoring with crash and fault injection at system-call level; content monitor in concurrent readers",
                note="Every file operation of the replacement is enumerated. Kills only, no loss of unsynced pages.", assumptions=[]),
    "C18": dict(level="exploration", stall=450, server=True, fast=("fastserver",), par=9,
                floor={"requests": 3000, "rankings_compared": 800, "concurrent_exchanges": 300, "malformed_requests": 50, "restarts": 6,
                       "queries_with_more_than_ten_matches": 20, "queries_with_fewer_than_ten_matches": 20},
                rule="A case is one service process (race build, its clock accelerated in two of three cases) through 2-4 rounds of sequential requests, 4-11 concurrent clients, a quiet "
                     "period, kill -9 and restart. Distinct by the documents.",
                technique="runtime monitoring: HTTP client with a reference-model oracle against the race-detector build of the server",
                note="Real time and real processes over loopback. Decides the interleavings that occurred.", assumptions=[REF]),
    "C22": dict(level="exploration", race=True, n={("quick", "race"): 120, ("thorough", "race"): 3000},
                floor={"held_answers_compared": 2000, "inputs_reused": 300, "answers_changed": 1000, "arguments_compared": 1000},
                rule="A case is a pseudo-random history whose client reuses the maps it saved, keeps or changes the answers it gets, and has every "
                     "answer it keeps compared later; or several such clients at once. Distinct by the histories.",
                technique="runtime monitoring: aliasing monitor over held answers and reused inputs, reference model, Go race detector",
                note="Every held answer is compared with a deep copy after later saves, flushes and evictions.", assumptions=[REF, VT]),
    "C24": dict(level="exploration", race=True, n={("quick", "race"): 32, ("thorough", "race"): 800},
                floor={"saves": 3000, "fields_compared": 20000, "restarts": 40, "concurrent_stores": 40, "cache_reads": 2000},
                rule="A case runs 2-46 stores of one process side by side over the same ids, fields and terms, each against a model of its own, one "
                     "after another or concurrently, and two instances of every cache. Distinct by the histories.",
                technique="runtime monitoring: one reference-model monitor per store, Go race detector",
                note="Stores that share nothing are compared after interleaved and concurrent histories and restarts.", assumptions=[REF, VT]),
    "C23": dict(level="exploration",
                floor={"rounds_measured": 200, "searches": 10000, "writes": 100000, "comparisons": 100},
                rule="A case is one process that repeats the same work (saving two versions of a corpus in turn, searches and reads with fresh "
                     "unknown terms, cache traffic, text analysis) and measures itself, idle, after every round. Distinct by kind and sizes.",
                technique="runtime monitoring: resource monitor (live heap after collection, goroutines, open files, directory) over repeated work",
                note="Twelve rounds in virtual time, 30 in the thorough tier; compares late rounds with early ones, so only growth is judged.",
                assumptions=[VT]),
    "C25": dict(level="fault_enumeration", user=65534, floor={"damages": 500, "noticed": 150, "answers_compared": 10000, "noticed_while_running": 10},
                rule="A case is one flushed store and 24 (thorough: 80) damages of one of its files: flipped bits, cuts, zeroed, dropped, overwritten or "
                     "appended bytes, a file or folder that cannot be read or written, before an open or under a running store. Distinct by file, damage and outcome.",
                technique="runtime monitoring with injected file damage: differential oracle against the undamaged store, in child processes",
                note="A process that refuses or stops is fine; every answer it gives is compared.", assumptions=[VT]),
    "C27": dict(level="exploration", floor={"files_written_independently": 2000, "files_read_independently": 5000, "fields_compared": 2000,
                                            "old_stores_opened": 20, "old_fragments": 5, "restarts": 200},
                rule="A case is a store directory written by the harness's own encoder, by the original library (recorded), or nothing, then opened, "
                     "saved to and reopened 2-4 times in virtual time, and read by the harness's own decoder each time. Distinct by content.",
                technique="runtime monitoring: independent encoder and decoder of the stored formats, reference model, recorded stores of the original version",
                note="Any field order, default omission, compression level and division among fragments that the formats allow.",
                assumptions=[REF, VT]),
    "C28": dict(level="exploration", floor={"reads": 100000, "folders_compared": 300, "stores_compared": 400, "questions_repeated": 1500, "restarts": 150},
                rule="A case is one history executed on two stores side by side in virtual time; only one of them is read, with random reads and searches of "
                     "known and unknown names between the operations, some from four goroutines. Distinct by the universe and the numbers of saves and reads.",
                technique="runtime monitoring: differential oracle (twin store that is never read), independent reader of the directories, reference model",
                note="Answers and decoded directories of both are compared at the end of each session, when the writers are at rest.",
                assumptions=[REF, VT]),
    "C29": dict(level="exploration", user=65534, floor={"sessions": 3000, "moves": 300, "copies": 300, "strays_compared": 15000, "idle_stores_compared": 2500,
                                        "opened as symbolic link": 250, "opened as relative": 250, "opened as the working directory": 150},
                rule="A case is several sessions on several stores in folders with unusual names, opened under differently written paths, moved and copied "
                     "between sessions. Distinct by the places, the ways their paths were written and the number of saves.",
                technique="runtime monitoring: reference model, independent reader at the canonical path, hashes of everything else in the surrounding folder",
                note="The working directory stays the same while a store is open. Paths with .. after a symbolic link, which mean different folders to "
                     "different programs, and folders of others inside the store's are left out.",
                assumptions=[REF, VT]),
    "C30": dict(level="exploration", floor={"opens": 2000, "simultaneous_opens": 500, "folders_compared": 1500, "reads_of_idle_stores": 8000, "restarts": 500},
                rule="A case is a chain of stores opened on one folder in one process and in virtual time, each 20 seconds after the last save to the one before, "
                     "all of them alive to the end. Distinct by the universe and the numbers of saves and opens.",
                technique="runtime monitoring: reference model for the newest store, independent reader of the folder at rest",
                note="Only the newest store is saved to; the answers of the idle ones are not judged. Openings fall mostly on the instants at which the others act.",
                assumptions=[REF, VT]),
    "C31": dict(level="exploration", race=True, n={("quick", "race"): 240, ("thorough", "race"): 4000},
                floor={"listings": 5000, "concurrent_listings": 2000, "postings_compared": 40000, "restarts": 200},
                rule="A case is a history of listings, saves, pauses and restarts with concurrent stretches on one store of either kind; non-trivial: "
                     "more than one listing. Distinct by the universe and the numbers of calls.",
                technique="runtime monitoring: set model of all postings, reference model for documents and hits; Go race detector",
                note="Statistics and scores are not judged here: the memory store counts a listed document, the disk store does not. "
                     "In a plain and a race build.",
                assumptions=[REF, VT]),
}
