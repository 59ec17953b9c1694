#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
N = {
"C01": ("model-based property testing of write histories, independent reader as oracle", "random histories of writes on new workbooks"),
"C02": ("stateful model-based property testing over multi-session histories", "up to 4 sessions, new and synthetic foreign workbooks"),
"C03": ("property testing with byte comparison of parts over generated packages and histories", "random packages with unmodelled parts, workbooks, documents, presentations"),
"C04": ("property testing with an independent OPC validator over generated packages and histories", "random packages and histories"),
"C05": ("property testing of XML round trips through parts of generated packages, infoset comparison", "generated element trees in several serialisations, placed in the parts the library rewrites"),
"C06": ("stateful property testing of the sheet list against an ordered model", "compared after every operation and every save"),
"C07": ("stateful property testing of interleaved sheet operations against a per-sheet model", "up to 3 handles open at once, several sessions"),
"C08": ("property testing of string tables of generated foreign workbooks, entry by entry", "plain, rich, phonetic, empty and duplicate entries"),
"C09": ("property testing of style requests, resolved by an independent reader", "all fields of the public style request"),
"C10": ("property testing of style tables of generated foreign workbooks, record by record", "several sessions"),
"C11": ("stateful property testing of column settings against a per-column model", "new sheets and foreign column ranges"),
"C12": ("stateful property testing of row settings and cell writes against a per-row model", "new sheets and foreign rows"),
"C13": ("stateful property testing of window and visibility settings against a model", "new and foreign workbooks, several sessions"),
"C14": ("metamorphic property testing: repeated open and save compared part by part", "with and without opening sheets and rewriting values in place"),
"C15": ("structured mutation fuzzing of packages, parts and bytes with crash and refusal oracles", "generated and Office-saved packages; hangs and memory exhaustion end as errors of the check"),
"C16": ("property testing with invalid addresses interleaved with valid edits, differential against the run without them", "in debug and release builds"),
"C17": ("fault injection by random and enumerated failure points of file system calls (LD_PRELOAD) under generated packages and targets", "every file system call of a save can be made to fail; crash of the machine (loss of unsynced data) is not simulated"),
"C18": ("property testing of addressing by reference and index, differential", "all columns, boundary-rich rows"),
"C19": ("property testing of value classification against a grammar", "generated texts near numbers, booleans and strings"),
"C20": ("property testing of unmodelled worksheet elements of generated sheets, element by element, with a schema order check", "random subsets of the optional elements"),
"C21": ("property testing of cells of generated foreign sheets against their source", "shared and array formulas, rich inline text, unknown attributes"),
"C22": ("property testing of core properties of generated packages over sessions", "all three kinds of package"),
"C23": ("stateful property testing of the declared range against the bounding box of the cells", "boundary-rich addresses"),
"C24": ("metamorphic property testing: two generated plans of the same contents compared", "order, batching, overwriting, handles and sessions vary"),
"C25": ("metamorphic property testing: documents made alone and interleaved, with options and threads, compared part by part", "schedules of API calls are generated; documents cannot be shared between threads"),
"C26": ("stateful property testing of handle lifecycles against a model", "up to 3 handles, renames and deletions under them, refused saves"),
"C27": ("property testing of generated documents and presentations, part by part over repeated saves", "synthetic and Office-saved files"),
"C28": ("property testing of sheet views of generated sheets against their source", "panes, selections, several views"),
"C29": ("stateful property testing of workbooks with an unreadable sheet against a model without the failed calls", "other sheet kinds, missing, empty, damaged and refused content"),
"C30": ("stateful property testing of workbook records of generated workbooks, compared as trees with sheet places translated", "15 kinds of records"),
"C31": ("metamorphic property testing: histories on respelt workbooks against the model of the plain spelling", "20 kinds of respelling, combined"),
"C32": ("mutation fuzzing of XML parts with an independent well-formedness checker as oracle", "structured and byte-level damage"),
"C34": ("property testing of a metamorphic relation between the processor times of a generated workbook and one with eight times the data", "rows, cells, texts, row settings, kept elements, long texts; up to 176000 items; numbers of sheets and of different formats are left out"),
"C33": ("stateful model-based property testing with bulk operations and blown-up generated workbooks", "one or more dimensions large per case; up to 70000 strings, 500 sheets, 16384 columns"),
}
M = {"version": 1, "setup_cmd": "./run.sh build",
     "checks": [{"property": k, "quick_cmd": "./run.sh %s" % k, "thorough_cmd": "./run.sh %s thorough" % k,
                 "technique": t, "level": "fault_enumeration" if k == "C17" else "exploration", "level_note": n + "; sampled, never exhaustive"}
                for k, (t, n) in N.items()],
     "not_applicable": []}
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
