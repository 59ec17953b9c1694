#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
S = "rs/src/spreadsheet/spreadsheet_2007/"
G = "rs/src/global/global_2007/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Cell content written to a sheet is what any reader finds in the saved file",
 "For every sequence of cell writes to the sheets of a new workbook (any text, number, boolean, error, inline or shared string, formula, at any valid address), the saved file, read by an independent reader, contains exactly the last value, type and formula written at each address and no other cell. Text is preserved character for character, including markup characters, line breaks, and leading, trailing or only white space. Formulas are preserved the same way, with the cached value given for them.",
 ["inputs", "histories"], "all sequences of row writes (values, types, formulas, addresses within the format's limits) to the sheets of a new workbook, then save",
 "The tests write a few fixed ASCII values at A1-like addresses and only assert that the calls return Ok; nothing reads the saved file back.",
 [S+"parts/worksheet.rs", S+"services/share_string.rs", "rs/src/files/xml/xml_deserialize.rs", "rs/src/utils/converters.rs"],
 [("cell normalisation and storage", S+"parts/worksheet.rs set_row_value_index_mut"), ("sheet data serialisation", S+"parts/worksheet.rs serialize_sheet_data"), ("string table", S+"services/share_string.rs get_string_id_mut"), ("escaping", "rs/src/files/xml/xml_deserialize.rs")],
 ["saved .xlsx: worksheet and sharedStrings parts"],
 [("sheet_data", "row -> cells in memory while the handle is open", S+"parts/worksheet.rs")])

prop("C02", "Edits accumulate correctly across open-edit-save sessions",
 "For every history of sessions that open a saved workbook, write some cells, add, rename or delete sheets and save, the final file read independently equals a model that applies the same operations in order: later writes win, cells and sheets not addressed stay as they were. This holds for workbooks produced by this library and for workbooks produced by other programs.",
 ["histories", "inputs"], "all multi-session histories of cell writes and sheet operations, starting from a new workbook or from a workbook written by another producer",
 "The tests open at most one fixture once and check nothing about its content afterwards; multi-session histories and foreign producers are not covered.",
 [S+"parts/worksheet.rs", S+"parts/workbook.rs", "rs/src/files/office_document.rs", S+"services/share_string.rs"],
 [("load of sheet data", S+"parts/worksheet.rs deserialize_sheet_data"), ("sheet lookup by name and relationship", S+"parts/worksheet.rs get_sheet_file_name"), ("part store", "rs/src/files/office_document.rs")],
 ["saved .xlsx after every session"],
 [("archive_collection", "all parts of the package by name", "rs/src/files/office_document.rs")])

prop("C03", "Parts a session does not edit survive open and save byte for byte",
 "Opening a spreadsheet, document or presentation package and saving it, with or without edits to some sheets, keeps every part that the session has no reason to rewrite (images, charts, drawings, tables, macros, custom parts, sheets never opened, parts of unknown type) present under the same name with exactly the same bytes and the same content type. Nothing is dropped, renamed, truncated or added to it.",
 ["inputs", "configurations"], "all packages (any part names, extensions, sizes, binary content, content-type declarations) and all edit sessions not touching those parts",
 "The tests open two fixtures and assert only that the save call returns Ok; part bytes and content types are never compared.",
 ["rs/src/files/office_document.rs", "rs/src/utils/file_handling.rs", G+"parts/content_types.rs"],
 [("load every zip entry into the store", "rs/src/files/office_document.rs load_archive_into_database"), ("write every stored part", "rs/src/files/office_document.rs save_database_into_archive"), ("compress and decompress", "rs/src/utils/file_handling.rs"), ("content type tables", G+"parts/content_types.rs")],
 ["zip entries and [Content_Types].xml of the saved package"])

prop("C04", "Every saved package is a structurally valid Open Packaging document",
 "After any sequence of operations on a spreadsheet (new or opened) or on an opened word-processing document or presentation, the saved file is a readable zip whose entries have unique names, whose XML parts are all well-formed, whose every part has exactly one content type, whose relationship ids are unique per part and whose every internal relationship target exists. The root relationships lead to one main part of the right content type, every sheet listed in a workbook has a unique name, unique sheet id and resolves to its own worksheet part, existing sheets keep their sheet ids, and deleting a sheet leaves neither its worksheet part nor that part's relationships nor a relationship to it behind.",
 ["histories", "inputs"], "all operation histories on new and existing packages, then save",
 "The tests never inspect the produced package; each structural rule must hold after every reachable history, not for the few saved in the tests.",
 ["rs/src/files/office_document.rs", G+"parts/relations.rs", G+"parts/content_types.rs", S+"parts/workbook.rs"],
 [("content types generation", G+"parts/content_types.rs create_xml_file"), ("relationship table", G+"parts/relations.rs"), ("removal of unused parts", "rs/src/files/office_document.rs delete_document_mut"), ("sheet list", S+"parts/workbook.rs close_document")],
 ["the saved package as a whole"])

prop("C05", "XML that passes through the library keeps its meaning",
 "A part that the library parses and writes back (theme, workbook, relationships, core properties, the unmodelled parts of a worksheet) keeps, for every well-formed document in ordinary Office shape, the same element tree, namespaces, attribute values, element order and text, whatever escapes, character references, CDATA sections, white space, default or prefixed namespace declarations and nesting depth the source uses. Re-writing it again changes nothing further.",
 ["inputs"], "all well-formed UTF-8 XML documents without mixed content, in parts the library re-serialises",
 "The unit tests parse two constant documents; the space of escapes, namespaces and nesting is unbounded.",
 ["rs/src/files/xml/xml_serialize.rs", "rs/src/files/xml/xml_deserialize.rs", "rs/src/files/xml/xml_tree.rs"],
 [("parser to tree", "rs/src/files/xml/xml_serialize.rs"), ("tree to text", "rs/src/files/xml/xml_deserialize.rs"), ("namespace handling", "rs/src/files/xml/xml_tree.rs set_attribute_mut")],
 ["the re-serialised part in the saved package"])

prop("C06", "The sheet list follows add, rename, delete and lookup like an ordered map",
 "For every sequence of adding (named or unnamed), opening, renaming and deleting sheets, the list of sheet names equals that of a simple ordered model at every step, and in the saved and re-opened file. Renaming to an existing name or from a missing one is refused and changes nothing; adding or getting an existing name opens that sheet instead of duplicating it; unnamed sheets get a name not in use; names that differ only in letter case are the same, and names no workbook can hold (empty, over 31 characters, with one of : \\ / ? * [ ], with an apostrophe at an end) are refused.",
 ["histories", "inputs"], "all sequences of sheet-list operations with any legal names, interleaved with save and re-open",
 "The tests perform two or three such calls in a fixed order; one of them already fails at the pinned commit.",
 [S+"parts/workbook.rs", S+"parts/worksheet.rs", S+"excel.rs"],
 [("sheet collection", S+"parts/workbook.rs"), ("name to part resolution", S+"parts/worksheet.rs get_sheet_file_name"), ("deletion", S+"parts/worksheet.rs delete_sheet_mut")],
 ["list_sheet_names and the saved workbook part"],
 [("sheet_collection", "name, relationship id, active and hidden flag per sheet", S+"parts/workbook.rs")])

prop("C07", "Each sheet name always leads to its own content",
 "Whatever sheets are added, deleted, renamed or re-opened and in whatever order, the content saved under a sheet's name is what was written through handles opened for that sheet: no operation on one sheet changes, moves, hides or loses the cells, row settings or column settings of another, and a deleted sheet's content never reappears in a sheet created later.",
 ["histories"], "all interleavings of operations on several sheets, including deletion and re-creation, part-name reuse and several handles open at once",
 "The tests never have two sheets with different content and compare them after a save.",
 [S+"parts/worksheet.rs", "rs/src/files/office_document.rs", G+"parts/relations.rs"],
 [("choice of a free part name", S+"parts/worksheet.rs get_sheet_file_name"), ("relationship id generation", G+"parts/relations.rs get_next_relationship_id"), ("part removal", "rs/src/files/office_document.rs delete_document_mut")],
 ["saved .xlsx: workbook, relationships and every worksheet part"])

prop("C08", "Shared strings keep their identity: existing entries never move or change",
 "For every workbook with a shared string table (plain, rich text, phonetic, empty or duplicate entries) and every session that adds strings, each existing entry keeps its index, text and formatting, so cells of sheets that were never opened still show the same text. New text is stored once however often it is written, and the declared counts are not smaller than the entries demand.",
 ["inputs", "histories"], "all shared string tables and all sequences of shared-string writes over any number of sheets and sessions",
 "No test reads a shared string table; index stability must hold for every table and write order.",
 [S+"services/share_string.rs"],
 [("load of the table", S+"services/share_string.rs load_content_to_database"), ("lookup or append", S+"services/share_string.rs get_string_id_mut"), ("write back", S+"services/share_string.rs close_document")],
 ["xl/sharedStrings.xml and cells of all sheets in the saved file"],
 [("share_string_collection", "index -> text", S+"services/share_string.rs")])

prop("C09", "A requested style id resolves in the file to exactly the requested formatting",
 "For every list of style requests, each id handed out refers, in the saved file, to a cell format whose font, fill, border, alignment and number format are those requested; ids are within the table and every table reference is within range. Equal requests yield equal ids and different requests yield different ids, in any order, and cells, rows and columns written with an id carry it. A request with a text that XML cannot hold is refused and leaves the table as it was.",
 ["inputs", "histories"], "all sequences of style requests (all field combinations) and uses of their ids, within a session and across sessions",
 "The tests request two styles and ignore the result; the combinations of fields are far beyond a sample.",
 [S+"services/style.rs", S+"models/style.rs"],
 [("style de-duplication", S+"services/style.rs get_style_id_mut"), ("style serialisation", S+"services/style.rs close_document"), ("enum spellings", S+"models/style.rs")],
 ["xl/styles.xml and the style attributes of cells in the saved file"])

prop("C10", "Styles already in a workbook survive sessions that open it",
 "For every workbook with its own styles, opening it, requesting further styles and saving keeps each existing cell format's index and the font, fill, border, alignment and number format it resolves to, as well as named styles and other style tables. New styles are appended after the existing ones.",
 ["inputs", "histories"], "all style tables expressible with the font, fill, border, alignment and number-format features the library models, and all later style requests",
 "The tests never compare a style table before and after.",
 [S+"services/style.rs"],
 [("style table load", S+"services/style.rs load_content_to_database"), ("style table write", S+"services/style.rs close_document")],
 ["xl/styles.xml before and after"])

prop("C11", "Column settings are per column, last write wins, and reach the file",
 "For every sequence of setting and clearing column properties by letter or by number, on new or existing sheets (including sheets with column ranges), the saved column definitions, expanded column by column, equal a per-column model: the addressed column has exactly the last width, hidden, best-fit and style given, all others keep theirs. Definitions in the file are in ascending order and never overlap.",
 ["histories", "inputs"], "all sequences of column property calls over columns 1..16384 and all pre-existing column ranges",
 "The only test sets one property and asserts Ok.",
 [S+"parts/worksheet.rs", S+"models/worksheet.rs"],
 [("range split and replace", S+"parts/worksheet.rs set_column_index_properties_mut"), ("load and save of cols", S+"parts/worksheet.rs deserialize_cols, serialize_cols")],
 ["cols element of the saved worksheet part"],
 [("column_collection", "column ranges", S+"parts/worksheet.rs")])

prop("C12", "Row settings are per row, last write wins, and never disturb cells",
 "For every sequence of setting row properties and writing cells, on new or existing sheets, each row in the saved file has exactly the last height, hidden, style and thick-edge settings given for it and the cells last written to it. Row settings never remove cells, cell writes never remove row settings, and rows appear in ascending order with each row once.",
 ["histories", "inputs"], "all interleavings of row property calls and cell writes over rows 1..1048576",
 "The only test sets one property and asserts Ok.",
 [S+"parts/worksheet.rs", S+"models/worksheet.rs"],
 [("row property update", S+"parts/worksheet.rs set_row_index_properties_mut"), ("row load and save", S+"parts/worksheet.rs deserialize_sheet_data, serialize_sheet_data")],
 ["row elements of the saved worksheet part"])

prop("C13", "Workbook window and sheet visibility settings take effect and persist",
 "After any sequence of setting the active sheet, hiding sheets, and setting workbook visibility, minimisation, tab and scroll-bar visibility, the saved file expresses exactly the last setting of each, whichever other settings were made before or after. Re-opening and saving keeps them, and keeps window attributes and sheet states (hidden, very hidden) that other programs wrote.",
 ["histories", "configurations"], "all sequences and combinations of the workbook view calls, on new and existing workbooks, over several sessions",
 "The tests call each setter once on a new file and never look at the result.",
 [S+"parts/workbook.rs", S+"excel.rs"],
 [("view setters", S+"parts/workbook.rs"), ("bookViews load and save", S+"parts/workbook.rs load_sheet_names, close_document")],
 ["bookViews and sheets of the saved workbook part"],
 [("workbook_view", "window settings", S+"parts/workbook.rs")])

prop("C14", "Opening and saving is a fixed point: repetition causes no drift",
 "For every workbook, after it has passed once through open and save, doing so again (any number of times, with or without opening its sheets, and with or without rewriting values already there) leaves every part semantically identical, apart from the modification time. In particular nothing accumulates, is lost, reordered or renumbered.",
 ["histories", "inputs"], "all workbooks and all numbers of no-op sessions",
 "The tests never save the same document twice and compare.",
 ["rs/src/files/office_document.rs", S+"parts/worksheet.rs", S+"parts/workbook.rs", S+"services/style.rs"],
 [("close and serialise of every part", "rs/src/files/office_document.rs close_xml_document"), ("sheet view handling", S+"parts/worksheet.rs deserialize_worksheet_views, serialize_sheet_views"), ("style and string table reload", S+"services")],
 ["all parts after the n-th save compared with the (n+1)-th"])

prop("C15", "Damaged or hostile input is refused with an error, never a crash",
 "For every input file (arbitrary bytes, truncated or corrupted packages, packages with missing, duplicate or malformed parts, attributes or references), opening it, opening its sheets and saving either succeed or return an error: the library never panics, aborts or loops. An input that was refused is left unmodified, and no output file appears.",
 ["inputs"], "all byte strings offered as files, with emphasis on structured mutations of valid packages",
 "No test opens a damaged file.",
 ["rs/src/files/office_document.rs", "rs/src/files/xml/xml_serialize.rs", G+"parts/relations.rs", S+"services/calculation_chain.rs", S+"parts/worksheet.rs"],
 [("error propagation", "rs/src/files/office_document.rs new"), ("attribute access", S+"services/calculation_chain.rs load_content_to_database"), ("part lookup", "rs/src/files/xml/xml_tree.rs get_first_element_id")],
 ["result of open, get sheet and save; the input file"])

prop("C16", "Addresses outside the sheet are refused and change nothing",
 "Cell writes and column settings whose reference or index is not an address of the sheet (row 0 or above 1048576, column 0 or beyond XFD, letters and digits out of order, empty or non-ASCII text) return an error, never panic, and leave the sheet exactly as it was; the same holds for a row of values that would run past the last column. All addresses inside the sheet, including the corners, are accepted, and a cell value, formula or sheet name with a character that XML cannot hold is refused in the same way.",
 ["inputs"], "all reference strings and all row and column indexes, valid and invalid, mixed into ordinary edit sequences",
 "The tests use a few short valid references.",
 ["rs/src/utils/converters.rs", S+"parts/worksheet.rs"],
 [("reference parsing", "rs/src/utils/converters.rs get_cell_index, get_column_index"), ("index use", S+"parts/worksheet.rs set_row_value_index_mut, set_column_index_properties_mut")],
 ["call result and the saved sheet"])

prop("C17", "Saving replaces the target whole or not at all, and never alters the source",
 "A save that returns success leaves at the target path exactly one complete package, whatever was there before and however long it was; a save that fails (unwritable or missing directory, no space, write error at any point) returns an error and leaves a file that was already at the target byte-identical, with no stray files beside it. The opened source file is never modified unless it is itself the save target.",
 ["fault_sequences", "inputs"], "all save targets (new, existing, shorter, longer, the source itself, unwritable, full) and all failure points of the write",
 "The tests save only to fresh names on a healthy file system.",
 ["rs/src/files/office_document.rs"],
 [("replacement of the target", "rs/src/files/office_document.rs save_as")],
 ["target directory and source file after save"])

prop("C18", "Letter references and numeric indexes address the same cell",
 "For every column 1..16384 and row 1..1048576, writing through the A1-style reference and through the numeric indexes reaches the same cell, distinct addresses never collide, references are accepted in either letter case, and the reference found in the saved file is the canonical upper-case form. The same agreement holds for column settings by letter and by number.",
 ["inputs"], "all columns and rows and both addressing forms",
 "The unit tests check a handful of column names.",
 ["rs/src/utils/converters.rs", S+"parts/worksheet.rs"],
 [("letters to number", "rs/src/utils/converters.rs get_column_index"), ("number to letters", "rs/src/utils/converters.rs get_column_ref")],
 ["cell references and column numbers in the saved sheet"])

prop("C19", "Automatic typing classifies every value and never loses it",
 "A value written with automatic typing becomes a number exactly when it is the text of a finite number, a boolean exactly when it is true or false in lower case, and otherwise a string holding exactly that text; numeric text denotes the same number in the file. A value written with the boolean type becomes 0 for the false spellings and 1 otherwise, a missing value becomes an empty cell, and every explicitly typed value keeps its type and text.",
 ["inputs"], "all value strings and all declared types",
 "The tests write a few literals and never check the stored type.",
 [S+"parts/worksheet.rs", S+"models/worksheet.rs"],
 [("type inference", S+"parts/worksheet.rs set_row_value_index_mut"), ("type spelling", S+"models/worksheet.rs CellDataType")],
 ["t attribute and value of cells in the saved sheet"])

prop("C20", "Worksheet features the library does not edit survive editing the sheet",
 "When a sheet containing merged cells, conditional formats, validations, hyperlinks, protection, filters, page setup, breaks, drawings, tables, legacy drawings, extensions or sheet properties is opened, edited and saved, each of those elements is kept unchanged and all elements of the sheet appear in the order the file format prescribes. The sheet's own relationships are kept.",
 ["inputs", "histories"], "all combinations of standard worksheet children in a sheet that is opened and edited",
 "The fixture holds few of these elements and the tests do not compare them.",
 [S+"parts/worksheet.rs", "rs/src/global/references/order_dictionary.rs", "rs/src/files/xml/xml_tree.rs"],
 [("child ordering", "rs/src/global/references/order_dictionary.rs"), ("re-serialisation of unmodelled children", "rs/src/files/xml/xml_deserialize.rs"), ("sheet relationships", G+"parts/relations.rs")],
 ["worksheet part of the saved file"])

prop("C21", "Existing cells keep their content when their sheet is opened for editing",
 "When a sheet written by another program is opened and other cells are edited, every untouched cell keeps its value, type, style, and its formula with all formula details (shared, array, reference range), and rich inline text stays as it was; the calculation chain keeps the entries of these cells in their order. Rows and cells keep the attributes the library does not edit.",
 ["inputs", "histories"], "all cell forms of the file format in a sheet that is opened and edited elsewhere",
 "The tests open one fixture and never compare its cells afterwards.",
 [S+"parts/worksheet.rs", S+"services/calculation_chain.rs"],
 [("cell load", S+"parts/worksheet.rs deserialize_sheet_data"), ("cell save", S+"parts/worksheet.rs serialize_sheet_data"), ("calculation chain", S+"services/calculation_chain.rs")],
 ["cells of the saved worksheet part, xl/calcChain.xml"])

prop("C22", "Core properties: creation time is kept, modification time is updated",
 "Saving sets the modification time to a valid UTC timestamp within the save, sets the creation time only where there is none, and keeps an existing creation time and every other core property (title, creator, keywords, and so on) unchanged, for every document and any number of sessions.",
 ["inputs", "histories"], "all core-property parts, present, partial or absent, over any number of sessions of spreadsheets, documents and presentations",
 "The tests never read the core properties.",
 [G+"parts/core_properties.rs"],
 [("timestamp update", G+"parts/core_properties.rs close_document")],
 ["docProps/core.xml of the saved file"])

prop("C23", "The declared used range is the bounding box of the cells",
 "The range a saved sheet declares as used starts at the smallest and ends at the largest row and column that hold data: it encloses every row and cell present, is not wider than the cells reach, is a valid reference, and is A1 for an empty sheet, after every sequence of writes and sessions.",
 ["histories", "inputs"], "all write sequences (any order of addresses, row-only settings, several sessions)",
 "No test reads the dimension.",
 [S+"parts/worksheet.rs"],
 [("dimension tracking", S+"parts/worksheet.rs set_row_value_index_mut, serialize_dimension, deserialize_sheet_data")],
 ["dimension element of the saved worksheet part"],
 [("dimension", "running minimum and maximum column", S+"parts/worksheet.rs")])

prop("C24", "How writes are batched or ordered does not change the result",
 "Writing the same final contents as one row call or as many single-cell calls, in any order of rows and columns, through one handle or several consecutive handles, in one session or several, yields sheets with the same cells, rows and columns and the same displayed text. Writing a cell twice is the same as writing it once with the second content.",
 ["histories"], "all partitions and permutations of a set of non-conflicting writes",
 "A metamorphic relation over pairs of histories; the tests run single fixed histories.",
 [S+"parts/worksheet.rs", S+"services/share_string.rs"],
 [("merge of new cells into existing rows", S+"parts/worksheet.rs set_row_value_index_mut")],
 ["saved sheets of both histories compared"])

prop("C25", "Documents are independent and results do not depend on chance or mode",
 "Several documents open at once in one process never influence each other, opening one source several times gives independent copies, and the same operations always produce semantically the same file, whatever the in-memory and editable options, the interleaving with other documents, or the run.",
 ["histories", "configurations"], "all interleavings of operations on several open documents and all option combinations, repeated runs",
 "Tests use one document at a time and never compare runs.",
 ["rs/src/files/office_document.rs", S+"excel.rs"],
 [("per-document state", "rs/src/files/office_document.rs"), ("options", S+"excel.rs ExcelPropertiesModel")],
 ["saved files compared part by part"])

prop("C26", "One open handle per sheet, and dropping it releases the sheet with its edits",
 "While a handle to a sheet is open, a second handle to the same sheet is refused with an error and the first stays usable; after the first is dropped the sheet can be opened again and shows all edits made through it. This holds for new, loaded, empty and renamed sheets and for any number of re-openings, and a refused attempt changes nothing. Saving a workbook while a handle to one of its sheets is open is refused with an error and writes nothing.",
 ["histories"], "all sequences of opening, editing, renaming and dropping handles on several sheets",
 "The test for this behaviour fails at the pinned commit; it covers a single sequence.",
 [S+"parts/worksheet.rs", "rs/src/files/office_document.rs", G+"parts/relations.rs"],
 [("open-part registry", "rs/src/files/office_document.rs get_xml_tree_mut"), ("close on drop", S+"parts/worksheet.rs Drop"), ("relationship part close", G+"parts/relations.rs close_document")],
 ["results of get sheet calls; the saved file"],
 [("xml_document_collection", "parts currently open", "rs/src/files/office_document.rs")])

prop("C27", "Documents and presentations pass through unharmed",
 "Opening any word-processing document or presentation and saving it keeps every part and relationship except for the refreshed modification time, and the result is a valid package of the same kind that can be opened and saved again with the same outcome. Failures to open are errors, not crashes.",
 ["inputs", "histories"], "all document and presentation packages and any number of open-save rounds",
 "Two smoke tests create files and check only that the call succeeds.",
 ["rs/src/document/document_2007/word.rs", "rs/src/presentation/presentation_2007/power_point.rs", "rs/src/files/office_document.rs"],
 [("open and save", "rs/src/document/document_2007/word.rs"), ("open and save", "rs/src/presentation/presentation_2007/power_point.rs")],
 ["saved .docx and .pptx packages"])

prop("C28", "Sheet view settings of an opened sheet are preserved",
 "When a sheet that has view settings (grid lines, zoom, headings, zero display, right-to-left, view mode, top-left cell, frozen or split panes, selections, several views) is opened, edited and saved, the saved sheet has the same views in the same order with the same settings and children, and a sheet without views gets at most one default view.",
 ["inputs", "histories"], "all sheet view elements with any attribute combination, number of views, panes and selections, over any number of sessions",
 "The fixture's view is never compared before and after.",
 [S+"parts/worksheet.rs"],
 [("view load", S+"parts/worksheet.rs deserialize_worksheet_views"), ("view save", S+"parts/worksheet.rs serialize_sheet_views")],
 ["sheetViews element of the saved worksheet part"])

prop("C29", "A sheet that cannot be opened stays as it was and disturbs nothing else",
 "When a sheet of a workbook cannot be read as a worksheet (a chart sheet, a missing or empty part, damaged or refused content), every attempt to open, edit or delete it is refused with an error, and saving keeps its content, its list entry and its relationships as they were. Edits of the other sheets before, between and after such attempts reach the file as if the attempts had not been made.",
 ["inputs", "histories"], "all workbooks with a sheet that cannot be opened, and all histories that try to open it between other edits",
 "No test has a workbook with an unreadable sheet; losing data needs a failed call in the middle of a session.",
 [S+"parts/worksheet.rs", S+"parts/workbook.rs", "rs/src/files/office_document.rs"],
 [("initialisation of a worksheet", S+"parts/worksheet.rs initialize_worksheet"), ("taking parts out of the store", "rs/src/files/office_document.rs")],
 ["results of the calls, the parts of the saved package"])

prop("C30", "Workbook records that belong to sheets follow them when sheets come and go",
 "When sheets are added, renamed or deleted, every record of the workbook that the library does not edit (properties, protection, external references, names, caches, custom views, extensions) stays as it was, and records that point to a sheet by its place (names local to a sheet, active and first tab of each window, calculation entries) point to the same sheet afterwards, or are gone if the sheet is. The elements of the workbook stay in the order the format prescribes.",
 ["inputs", "histories"], "all workbooks with any of these records and all histories of adding, renaming and deleting sheets and overwriting formulas",
 "The fixtures have almost none of these records, and no test looks at them after deleting a sheet.",
 [S+"parts/workbook.rs", S+"parts/worksheet.rs", S+"services/calculation_chain.rs"],
 [("closing the workbook", S+"parts/workbook.rs close_document"), ("deleting a sheet", S+"parts/worksheet.rs delete_sheet_mut"), ("calculation chain", S+"services/calculation_chain.rs")],
 ["workbook and calcChain parts of the saved file"])

prop("C31", "Other spellings of the same XML and package give the same workbook",
 "A workbook written in another spelling that the standards define as equal (namespace prefixes, quotes, white space in tags, attribute order, character references, CDATA, comments, empty tag pairs, UTF-16, letter case of part names) is read and edited exactly as its plain spelling: all operations find the same sheets, cells, rows, columns, styles and settings and give the same result.",
 ["inputs", "histories"], "all equivalent spellings of all workbooks, with any history of operations",
 "The fixtures come from one producer, so the tests see a single spelling.",
 ["rs/src/files/xml/xml_serialize.rs", "rs/src/files/office_document.rs", G+"parts/relations.rs", S+"parts/worksheet.rs"],
 [("parser", "rs/src/files/xml/xml_serialize.rs"), ("sheet list", S+"parts/workbook.rs"), ("part lookup", "rs/src/files/office_document.rs")],
 ["saved workbook read by an independent reader"])

prop("C32", "XML that is not well-formed is never taken for something else and rewritten",
 "When a part that has to be read is not well-formed XML, the operation that reads it is refused, so that no file is saved in which the broken part was replaced by a guess at its meaning. Every XML part that the library itself writes is well-formed, whatever was read.",
 ["inputs"], "all ill-formed variants of the parts of workbooks, documents and presentations",
 "No test offers ill-formed XML, and the ways to be ill-formed are unbounded.",
 ["rs/src/files/xml/xml_serialize.rs", "rs/src/files/xml/xml_deserialize.rs", "rs/src/files/office_document.rs"],
 [("parser", "rs/src/files/xml/xml_serialize.rs"), ("part reading", "rs/src/files/office_document.rs")],
 ["results of the calls, the parts of the saved package"])

prop("C33", "Size does not change behaviour",
 "Workbooks with hundreds of sheets, tens of thousands of strings, thousands of rows, columns, formats and parts, rows of full width, texts of the maximal length, and long sessions with many open handles behave exactly as small ones: cells, settings, formats, names and indexes in the saved file are what the same operations mean at any size.",
 ["inputs", "histories"], "all sizes within the limits of the file format, reached by operations or present in the opened workbook",
 "The tests work with a handful of cells except for one that writes many and looks at none of them.",
 [S+"parts/worksheet.rs", S+"services/share_string.rs", S+"services/style.rs", G+"parts/relations.rs"],
 [("string table", S+"services/share_string.rs"), ("style table", S+"services/style.rs"), ("sheet data", S+"parts/worksheet.rs"), ("relationship ids", G+"parts/relations.rs")],
 ["saved workbook read by an independent reader"])

prop("C34", "Time grows in proportion to the amount of data",
 "Opening a workbook, opening a sheet, writing cells, closing the sheet and saving take processor time in proportion to the number of rows, cells, row settings, shared texts, characters of a text and elements kept from the file: eight times as many take about eight times as long, in whatever order they are written, up to the limits of the file format.",
 ["inputs", "histories"], "amounts of tens of thousands and more, in any order of writing",
 "The tests measure a single small workbook and compare nothing.",
 [S+"parts/worksheet.rs", S+"services/share_string.rs", "rs/src/files/xml/xml_deserialize.rs"],
 [("sheet data", S+"parts/worksheet.rs"), ("string table", S+"services/share_string.rs"), ("XML tree", "rs/src/files/xml/xml_deserialize.rs")],
 ["processor time of the thread"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
