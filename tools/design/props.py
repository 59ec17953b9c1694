P['C01']="""Generated: histories of writes through every public write call (typed, automatic, styled, formula with cached value, inline and shared) with hostile text (markup, CR/LF/tab, spaces, `_x000D_`-like escapes, `]]>`, astral characters, empty) at boundary-rich addresses, several sheets. Oracle: cell model; our own reader must find exactly those cells with type, text, formula. 10 000 cases, 25 s. Tests sample one value; text fidelity is a for-all over texts × types × positions."""
P['C02']="""Generated: 1 to 4 sessions of any operations on new, synthetic and Excel files. Oracle: model applied to the whole history, file compared after every session. Catches state that only goes wrong on re-opening (indexes, reuse, stale attributes)."""
P['C03']="""Generated: packages with up to 6 unknown parts (random bytes, names, extensions, content types, relationships, nested directories, dotted names), drawings, charts, media, macros, sheets never opened; documents and presentations; edit histories. Oracle: byte comparison, content type comparison, nothing added that the history does not explain."""
P['C04']="""Generated: as C02 and C03 including refused operations and open handles. Oracle: independent OPC validator: unique entry names (case-insensitively), well-formedness, exactly one content type per part, ids unique, targets exist, main part type, sheet names/ids unique, sheet ids stable, deleted sheets leave nothing."""
P['C05']="""Generated: random namespace-well-formed trees (depth up to 250, redeclared/undeclared namespaces, both quotes, every escape and reference form, CDATA, comments, processing instructions) put into theme, extension lists, core properties, relationship targets. Oracle: infoset comparison by our parser after one and two rounds. Assumption: element-only content may lose insignificant white space; mixed content is outside (see limitations)."""
P['C06']="""Generated: add/open/rename/delete/list with hostile names (case variants, 31/32 characters, forbidden characters, apostrophes, hidden sheets). Oracle: ordered-map model, checked at every step and after saving and re-opening."""
P['C07']="""Generated: interleavings with up to 3 open handles, re-creation after deletion, part names that collide with the library's own numbering, sheets whose content is missing. Oracle: per-sheet model of cells, rows, columns."""
P['C08']="""Generated: string tables of plain, rich, phonetic, empty, duplicate entries; sessions that write existing and new texts. Oracle: prefix of the table identical entry by entry (tree comparison), each new text once, counts sufficient, unopened sheets show the same text."""
P['C09']="""Generated: style requests over all enums, colours, sizes, alignment, formats (built-in and custom), near misses of existing records, requests with illegal text. Oracle: the id resolved in the saved file by our reader to font/fill/border/alignment/number format equals the request in meaning (incl. tint, outline, quotePrefix, apply flags); equal ids iff equal requests."""
P['C10']="""Generated: foreign style tables with all flags, cellStyleXfs, dxfs, table styles, colours, extensions; near misses; requests over several sessions. Oracle: every earlier format index keeps its resolved meaning and its other attributes; new ones only appended."""
P['C11']="""Generated: set/clear by letter and index on new sheets and on foreign `<cols>` (ranges, overlaps with ours, XFD). Oracle: per-column map (expanded from ranges), ascending and non-overlapping."""
P['C12']="""Generated: row settings and cell writes in any interleaving, boundary rows. Oracle: per-row model of settings and cells; foreign attributes kept."""
P['C13']="""Generated: active/hide/window calls mixed with add/rename/delete on books with 0 to 3 foreign windows and hidden/veryHidden sheets. Oracle: model of the window and of the sheet states; other windows and attributes compared with the source."""
P['C14']="""Generated: any workbook/document, then open-save repeated in the modes plain, list, open one, open all, rewrite the same values, request the same styles. Oracle: each further round is semantically identical part by part (except the modification time)."""
P['C15']="""Generated: synthetic and real packages with 1 to 4 structured damages out of 24 kinds (XML-aware, zip-level and byte-level), then open, open every sheet, edit, save. Oracle: no panic, abort, endless run or memory exhaustion; refused input stays byte-identical and no output appears. 14 000 cases, 20 s."""
P['C16']="""Generated: valid histories with and without invalid calls between (rows, columns, references, rows past XFD, values/formulas with characters XML cannot hold). Oracle: each invalid call is Err; both files are the same part by part (metamorphic); corners are accepted."""
P['C17']="""Fault enumeration: the save is run in a child under an LD_PRELOAD shim that fails or kills at the n-th file operation, for each n up to the number the save makes, plus RLIMIT_FSIZE, 14 kinds of targets (source itself, symlink, read-only, missing directory, directory, long name, relative, odd names), as an unprivileged user where permissions matter. Oracle: target is the complete old or complete new file, success means new, failure means old, no stray files, source untouched."""
P['C18']="""Every column 1..16384 and 2000+ rows are swept in 10 large cases (400 columns at a time) plus random points, in three letter cases. Oracle: own base-26 conversion."""
P['C19']="""Generated: lists of values near the border of number/boolean/text. Oracle: own grammar of finite decimal numbers, exact f64 comparison."""
P['C20']="""Generated: random subsets of 34 element kinds with their relationships, sheet edited in 1 to 3 sessions. Oracle: sequence of those subtrees identical, schema order of all children, relationships identical."""
P['C21']="""Generated: foreign cells of all kinds with metadata attributes and implicit positions; other cells written. Oracle: every untouched cell, row, calcChain entry compared as a tree/sequence."""
P['C22']="""Generated: core properties with 13 fields, several time forms, absent part, other places, namespaces declared in place. Oracle: field-by-field model, times inside the wall-clock interval of the save."""
P['C23']="""Generated: writes at boundary-rich addresses, empty rows, several sessions. Oracle: bounding box computed from the file."""
P['C24']="""Metamorphic: one final content executed by plan A (cell by cell, sorted, one handle) and plan B (random batching, order, addressing, earlier junk values, repeated writes, handles and sessions). Oracle: same cells, rows, columns, used range, texts."""
P['C25']="""Differential: 2 to 4 documents made separately with default options, and interleaved (in half of the cases in two threads) with random options. Oracle: pairwise semantic equality of the files; sources keep their bytes."""
P['C26']="""Generated: histories of handles (open, edit, rename under, drop, second handle, save while open). Oracle: model of open handles decides Ok/Err; content model."""
P['C27']="""Generated: documents and presentations (macro types, headers, slides, hyperlinks, other places of the main part) saved three times. Oracle: parts and relationships equal after each round."""
P['C28']="""Generated: sheets with 0 to 2 views with all attributes, panes, selections, extensions. Oracle: view trees equal, at most one default view otherwise."""
P['C29']="""Generated: workbooks where some sheets are chart sheets, missing, empty, damaged, of a wrong content type or not well-formed; attempts to open/edit/delete/rename them between edits of others. Oracle: every attempt is Err, the part keeps its bytes, relationships mean the same, and the file equals the one of the history without the attempts (metamorphic)."""
P['C30']="""Generated: workbooks with names local to sheets, several windows, calcChain, custom views, external references, protection, extensions; sheets come and go. Oracle: model of every positional record mapped through the sheet list; schema order of workbook children."""
P['C31']="""Metamorphic: the same workbook in plain spelling and re-spelt (prefixes, quotes, white space, attribute order, references, CDATA, comments, empty tag pairs, UTF-16, part name case), same history. Oracle: same results of all calls and semantically the same file. UTF-16 without byte order mark is not generated (the XML standard requires the mark)."""
P['C32']="""Generated: packages with one to three well-formedness errors in parts that are read (24 raw snippets, structural damage, both ends of the document, odd UTF-16). Oracle: our strict parser says the part is ill-formed ⇒ the library refuses, or keeps the bytes; every part written is well-formed."""
P['C33']="""Generated: bulk operations in random combination on starts of up to 140000 rows, 300000 shared texts and tables of 67000 fonts, fills or borders (300 sheets, 3000 texts, 300 formats, 3000 rows, 16384 cells per row, 32767-character texts, 80 handles, deep renames). Oracle: the ordinary model and validator of C02/C04/C09. Cost about 2 min; bounded by that, not at Excel's own limits (1 048 576 full rows)."""
P['C34']="""Generated: one kind of workbook (cells in many rows, in three orders; single-cell writes to rows of any width; shared texts, all or few different; row settings; foreign sheets with many cells, merged ranges, conditional formats, validations, one long text, a large string table) at a size n and at 8n. Oracle: metamorphic relation between the processor times of every phase (open, open the sheet, write, close, save, and again on the file saved): the larger may take 18 times as long (proportional is 8, quadratic 64), and only phases over 2 s are judged, after three measurements that all agree. Measured on the unchanged tree: 3 to 8 per factor 4 before the factor was raised to 8, no phase near the bound; with 53d4cdd or 3bf4911 reverted: 28 to 140. Left out: the number of sheets (quadratic, 4000 sheets take 5 s) and of different formats (quadratic, 66000 fonts take 15 s), which are slow only beyond practical sizes."""
