#!/usr/bin/env python3
"""Writes known-findings.json: the defects that were found in the code as it was handed over."""
import json, os
F = [
 ("ee499dd", ["C20", "C07", "C21"], "SecureSaveFile renamed the current file away before the new one into place: for a moment, and for good after a crash or error, no file had the name"),
 ("8963b70", ["C07", "C08"], "index fragments were written in place: a merge at that instant, or a crash, met a partial fragment"),
 ("e764752", ["C03", "C06"], "each flush of document frequencies replaced the file: all terms of earlier flushes were gone after a restart"),
 ("0d240f5", ["C13", "C05"], "LRU Get moved pages under a read lock (race), returned pointers into the page (later puts changed them), and capacity 0 panicked"),
 ("fa3cd9c", ["C30"], "two merges of one directory at the same time deleted fragments the other was reading"),
 ("26cdb3b", ["C03", "C04"], "memory store: saving a document again counted it twice and left it under terms it had lost"),
 ("62441fe", ["C09", "C10", "C22"], "memory store: no locking, live maps and sets handed out: concurrent map access crashed the process"),
 ("741d30d", ["C01", "C04", "C06"], "a search returned documents none of whose terms matched any more (stale postings on disk)"),
 ("d24d5a1", ["C10"], "a search read the totals before the postings: infinite or NaN scores while documents were being saved"),
 ("410579c", ["C04", "C05", "C21"], "disk store: updating a document that had left the cache dropped its other fields; a read error counted as an absent document"),
 ("8dd63c7", ["C03", "C04"], "disk store: saving a document again counted it twice and left it under terms it had lost"),
 ("4675f01", ["C09", "C10"], "disk store: no locking: concurrent use raced and crashed the process"),
 ("3dcbd26", ["C12"], "ids and field names with path separators, dot segments, zero bytes or reserved names collided, escaped the directory or stopped the process"),
 ("f9cf2d6", ["C14"], "SyncMap kept the first value of a key for ever and wrote the map while readers read it"),
 ("0856ffe", ["C17"], "GetID rendered numbers in exponent notation and null as <nil>"),
 ("cfc04c5", ["C18"], "a query with fewer than ten matches panicked; the handler was not safe for concurrent requests"),
 ("2c1f342", ["C17"], "Flatten: an empty key lost its dot, so that different leaves fell together"),
 ("31d5f02", ["C07", "C21"], "scores were NaN, infinite or negative after a crash that left the totals behind the documents"),
 ("40ed673", ["C22"], "a saved field shared its term counts with the caller, whose later changes reached the store (and raced with its writers)"),
 ("e3ca2df", ["C15"], "LocalMap.GetData handed out the live map without a lock"),
 ("19156f0", ["C22"], "Memory.GetFieldDocumentTest handed out the live map of a document"),
]
out = [{"property": p, "id": c, "status": "fixed", "commit": c, "what": w, "entry": f"fixed: property={p} {c} {w}"} for c, ps, w in F for p in ps]
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known-findings.json"), "w"), indent=1)
