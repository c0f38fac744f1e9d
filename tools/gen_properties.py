"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe}}
    if len(title) > 80: raise SystemExit(title)
    P.append(d)

p("C01", "Text put into text objects is read back unchanged",
  "For every text string, a Paragraph, Heading, Span, Hyperlink, list item or list header created from it reports exactly that string as its plain text, and appending further text yields exactly the concatenation. The reported text length always equals the number of characters of the plain text, for every nesting of spans, tabs, line breaks and space runs.",
  ["inputs", "histories"], "every string (any mix of spaces, tabs, newlines and other characters), every sequence of append operations, every mixture of inline children",
  "test_text/test_whitespaces try a dozen fixed strings; the encoder is a small state machine whose bugs appear for particular runs of whitespace at particular places.",
  ["ezodf/whitespaces.py", "ezodf/text.py", "ezodf/base.py"],
  [("whitespace encoder", "ezodf/whitespaces.py:_WhitespaceEncoder.encode"), ("text assembly", "ezodf/text.py:Span.append_text"), ("text extraction", "ezodf/text.py:Span.plaintext")],
  ["plaintext()", "textlen"])
p("C02", "Encoded text contains no white space an ODF consumer would collapse",
  "Encoding a string for storage never leaves a tab, a line feed or two adjacent spaces as raw character data: tabs and line breaks become their elements, and the second and following spaces of a run become one space element whose count is the number of spaces it replaces. Decoding the encoded form restores the original string.",
  ["inputs"], "every string of spaces, tabs, newlines and other characters",
  "The tests compare encodings of a few short strings; a run that starts or ends at another white-space character or at the end of the text is a separate state of the encoder.",
  ["ezodf/whitespaces.py"],
  [("encoder", "ezodf/whitespaces.py:_WhitespaceEncoder"), ("space element", "ezodf/whitespaces.py:Spaces")],
  ["encode_whitespaces()", "decode_whitespaces()", "stored text/tail strings"])
p("C03", "A cell returns the value, type and currency last set, and nothing else",
  "After set_value the cell reports exactly the value (numbers as float, booleans as bool, everything else as text), the value type (given or inferred: bool, then number, then text) and the currency of that call, whatever the cell held before; attributes of the previous value do not survive, and formula, style, protection and span are left alone. A set_value call that is rejected leaves the cell as it was.",
  ["inputs", "histories"], "every value of every supported type, every previous content of the cell, every order of assignments",
  "Tests set a fresh cell once with one literal per type; residues only show for particular pairs of successive assignments.",
  ["ezodf/cells.py"],
  [("type inference and storage", "ezodf/cells.py:Cell.set_value"), ("clearing", "ezodf/cells.py:Cell._clear_old_value"), ("reading", "ezodf/cells.py:Cell.value")],
  ["Cell.value", "Cell.value_type", "Cell.currency", "Cell.plaintext()", "cell attributes"])
p("C04", "Spreadsheet references map one-to-one to (row, column) positions",
  "A reference of letters followed by a row number >= 1 denotes row number-1 and the column whose bijective base-26 name is the letters, in upper or lower case; different positions have different references, and a reference and the equivalent (row, column) tuple reach the same cell in every table method that accepts both. Any other string is rejected with ValueError.",
  ["inputs"], "every string used as a reference, in particular every column name length and every row number",
  "Tests convert a handful of addresses; carries between letters, row 0, trailing characters and non-ASCII letters or digits are not reached.",
  ["ezodf/tableutils.py", "ezodf/table.py"],
  [("address parser", "ezodf/tableutils.py:address_to_index"), ("reference dispatch", "ezodf/tableutils.py:get_cell_index")],
  ["address_to_index()", "Table[...] / row() / column() / row_info() / column_info()"])
p("C05", "Row and column edits behave like edits of a rectangular grid",
  "After any sequence of accepted insert, append, delete, set-cell and reset operations a table is exactly the grid those operations describe: rectangular, nrows()/ncols() exact, every untouched cell with its content at its shifted position, new rows and columns empty. Column infos shift together with the columns and row infos with the rows, and rereading the XML gives the same grid.",
  ["inputs", "histories"], "every table size, every index (also negative) and count, every sequence of operations, rows inside header-row or row-group elements",
  "Tests apply one operation with one index to a 10x10 table; off-by-one errors for negative indices, counts > 1, first/last positions or after earlier edits are not sampled.",
  ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py"],
  [("row/cell bookkeeping", "ezodf/tablerowcontroller.py:TableRowController"), ("column info bookkeeping", "ezodf/tablecolumncontroller.py:TableColumnController")],
  ["nrows()", "ncols()", "cells", "row_info()", "column_info()", "table XML"])
p("C06", "A rejected table operation leaves the table exactly as it was",
  "When a table operation raises because of its arguments (index outside the table, count < 1, deleting all or more rows or columns than exist from the index on, invalid size, wrong object type, malformed reference), the table afterwards has the same size, cells, spans and column infos as before.",
  ["inputs", "histories"], "every operation of the table API with every invalid index, count, size or object",
  "Tests only assert that some exceptions are raised, not the state afterwards.",
  ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py", "ezodf/cellspancontroller.py"],
  [("argument checks", "ezodf/tablerowcontroller.py:TableRowController"), ("argument checks", "ezodf/tablecolumncontroller.py:TableColumnController")],
  ["table XML before and after the exception"])
p("C07", "Repeated rows and cells are expanded to the grid they denote",
  "Opening a table expands every repeated cell and row into that many equal, independent cells and rows under strategy 'all', which preserves the layout exactly; 'all_but_last' keeps only one copy of the last cell of each row and of the last row, and 'all_less_maxcount' keeps one copy of anything repeated maxcount times or more. The result never carries repetition attributes, keeps the order, and all rows have equal length, short rows being padded with empty cells on the right.",
  ["inputs", "configurations"], "every arrangement of rows, cells, covered cells and columns with every repetition count, every strategy and maxcount",
  "Tests expand two fixed tables; the boundary at maxcount, last-element handling and padding of ragged rows depend on the counts.",
  ["ezodf/tablenormalizer.py", "ezodf/tablecolumncontroller.py", "ezodf/tableutils.py", "ezodf/conf.py"],
  [("strategies", "ezodf/tablenormalizer.py:expand_strategies"), ("alignment", "ezodf/tablenormalizer.py:TableNormalizer.align_table_columns"), ("global strategy", "ezodf/conf.py:Config")],
  ["nrows()", "ncols()", "cells", "column infos of the opened table"])
p("C08", "Cell spans cover exactly their area and never overlap",
  "After an accepted set_cell_span the start cell reports the span and exactly the other cells of the area are newly covered; remove_cell_span undoes precisely that, leaving every cell uncovered and unspanned again with its content. A request for an area that leaves the table or touches a cell that already spans or is covered is rejected and changes nothing.",
  ["inputs", "histories"], "every position, size and sequence of set/remove span requests",
  "Tests set single spans and one overlap on the start cell; partial overlaps, 1x1 spans and negative positions are not tried.",
  ["ezodf/cellspancontroller.py", "ezodf/cells.py", "ezodf/tableutils.py"],
  [("span control", "ezodf/cellspancontroller.py:CellSpanController"), ("span attributes", "ezodf/cells.py:Cell._set_span"), ("range iteration", "ezodf/tableutils.py:iter_cell_range")],
  ["Cell.span", "Cell.covered", "Cell.value"])
p("C09", "Sheets and pages form an ordered list that is also addressable by name",
  "Sheets (and drawing/presentation pages) behave as a list: len, iteration, names, integer access (also negative), index, insert, append, replace and delete agree with list semantics on the sheets alone, whatever other elements the body holds; access by name reaches the first sheet of that name. Other body elements are never removed or reordered, and failing lookups and wrong types raise without changing anything.",
  ["inputs", "histories"], "every sequence of sheet operations with every index or name, every arrangement of non-sheet elements in the body",
  "Tests use a body that contains only sheets, so positions counted over all body children and positions counted over sheets coincide.",
  ["ezodf/pagecontainer.py", "ezodf/sheets.py", "ezodf/pages.py", "ezodf/body.py"],
  [("container", "ezodf/pagecontainer.py:AbstractPageContainer")],
  ["doc.sheets / doc.pages operations", "order of body children"])
p("C10", "Structural elements keep their place around document content",
  "Reordering a body moves prelude elements to the front and epilogue elements to the end, grouped in schema order, keeps document order inside each group and loses nothing; the structure checker accepts exactly well-ordered bodies. Prelude and epilogue blocks report the longest correctly ordered run of block elements at that end, insert positions computed for a tag keep the block in schema order, and content appended to a text body lands after all content and before the epilogue.",
  ["inputs"], "every sequence of child tags, every tag list, every tag asked for",
  "Tests use random or fixed tag strings with all block tags present; missing neighbours and interleavings matter.",
  ["ezodf/nodeorganizer.py", "ezodf/nodestructurechecker.py", "ezodf/body.py"],
  [("organizer", "ezodf/nodeorganizer.py:PreludeEpilogueOrganizer"), ("blocks", "ezodf/nodeorganizer.py:PreludeTagBlock"), ("body append", "ezodf/body.py:TextBody.append")],
  ["order of children", "insert_position_before/after", "tag_info", "is_valid"])
p("C11", "Wrapper objects edit their XML children and attributes like lists and maps",
  "Index access, insert, append, insert_before, replace, set, remove, delete, clear, index, find, findall, iteration and length on any content object behave as the corresponding list operation on its child elements, each child being returned wrapped in the class registered for its tag and sharing its XML node. Attribute get/set/boolean accessors return what was last set, the default if absent, and never touch other attributes.",
  ["inputs", "histories"], "every sequence of child operations with every index (also negative or out of range), every attribute value",
  "test_base applies each operation once at a fixed index of a fixed three-child node.",
  ["ezodf/base.py", "ezodf/xmlns.py", "ezodf/propertymixins.py"],
  [("child operations", "ezodf/base.py:GenericWrapper"), ("class registry", "ezodf/xmlns.py:_ClassRegistry"), ("attribute properties", "ezodf/propertymixins.py")],
  ["children", "attributes", "wrapped class"])
p("C12", "Document metadata behaves as a map, a keyword set, a user map and counters",
  "Simple tags return the last text set and raise KeyError when absent; keywords hold each keyword once, in insertion order; user tags behave as a map from name to text with the type last given (string when none is given); statistics return the last integer set and 0 when absent. Unknown names are rejected, clear and remove delete exactly what they name, no operation disturbs other metadata, and each save adds one editing cycle and records generator and date.",
  ["inputs", "histories"], "every sequence of operations with arbitrary keys, names and values on new or loaded metadata",
  "Tests cover each method once with literals; interactions between names that are equal, prefixes of each other or removed earlier are not sampled.",
  ["ezodf/meta.py"],
  [("simple tags", "ezodf/meta.py:OfficeDocumentMeta"), ("keywords", "ezodf/meta.py:Keywords"), ("user tags", "ezodf/meta.py:Usertags"), ("statistics", "ezodf/meta.py:Statistic")],
  ["meta[...]", "meta.keywords", "meta.usertags", "meta.count"])
p("C13", "The manifest lists every path once with its latest media type",
  "Adding a path creates exactly one entry or updates the existing one (media type always, version only if given), removing deletes only that entry, finding returns the entry of that path or nothing, and the manifest file itself is never listed. Entries of other paths and their order are never changed, for new manifests and manifests loaded from a package.",
  ["inputs", "histories"], "every sequence of add/remove/find with arbitrary paths, media types and versions",
  "Tests add or remove one literal path.",
  ["ezodf/manifest.py", "ezodf/filemanager.py"],
  [("manifest", "ezodf/manifest.py:Manifest"), ("registration", "ezodf/filemanager.py:FileManager.register")],
  ["file-entry elements"])
p("C14", "A saved package holds the current parts first-class and all other members intact",
  "Saving writes a package whose first member is the uncompressed mimetype, that contains each managed part exactly once with its current content, and every other member of the opened package exactly once with identical content, in memory and on disk alike; the manifest names every managed part. Saving again, to the same or another target, gives the same members.",
  ["inputs", "histories"], "every set of members and contents in the source package, every registration and order of saves",
  "Tests compare member names of four sample files; member contents, order, overlapping names and repeated saves are not checked.",
  ["ezodf/filemanager.py", "ezodf/bytestreammanager.py", "ezodf/document.py"],
  [("packing", "ezodf/filemanager.py:FileManager._tozip"), ("carry-over", "ezodf/filemanager.py:FileManager._copy_zip_to"), ("in-memory source", "ezodf/bytestreammanager.py:ByteStreamManager")],
  ["members, order, compression and content of the written zip"])
p("C15", "An interrupted or failing save never loses the previous document",
  "If saving a file-based document fails or the process stops at any point, a complete package - the previous or the new one - is found under the target name, or (only with backups enabled) the previous one under the target name plus '.bak'; a save that raises leaves no temporary files and the previous document readable, and no save overwrites or removes any other file. A successful save with backup leaves the previous version, byte for byte, in the '.bak' file and without backup creates none; if serialising a document fails, the target is untouched.",
  ["crash_points", "fault_sequences", "configurations"], "every file-system step at which a save can fail or stop, backup on or off, target/backup existing or not",
  "Tests only run successful saves.",
  ["ezodf/filemanager.py", "ezodf/bytestreammanager.py", "ezodf/document.py"],
  [("save sequence", "ezodf/filemanager.py:FileManager.save"), ("stream-backed save", "ezodf/bytestreammanager.py:ByteStreamManager.save"), ("flat save", "ezodf/document.py:FlatXMLDocument._saving_routine")],
  ["files in the target directory after every step"])
p("C16", "A document stays fully usable after a failed save",
  "After a save raised an exception at any step, the document object still has all its parts and their content, and the next save that meets no fault writes the complete package as if the failed attempt had not happened (editing counters aside).",
  ["fault_sequences", "histories"], "every step at which writing a member or a file operation can fail, followed by any number of retries",
  "No test injects a failure into a save.",
  ["ezodf/filemanager.py", "ezodf/document.py"],
  [("part directory", "ezodf/filemanager.py:FileManager.directory"), ("packing", "ezodf/filemanager.py:FileManager._tozip")],
  ["members of the package written by the retry"])
p("C17", "Documents are created and opened with the type their content declares",
  "newdoc gives a document whose mimetype, doctype, mimetype member, manifest root entry and body element agree with the requested type, and from a template the corresponding non-template type with the template's content. opendoc determines the type from the content - file, bytes or stream, packaged or flat XML - and reports the same mimetype, doctype and body that were saved; unknown types are rejected.",
  ["inputs", "configurations"], "every doctype and mimetype, template or not, every source kind, mimetype member present or only the manifest",
  "Tests create four types and open four sample files.",
  ["ezodf/document.py", "ezodf/const.py", "ezodf/content.py", "ezodf/styles.py"],
  [("opening", "ezodf/document.py:opendoc"), ("creation", "ezodf/document.py:newdoc"), ("type tables", "ezodf/const.py:MIMETYPES")],
  ["mimetype", "doctype", "body tag", "manifest root entry"])
p("C18", "A variable or user field reads back the value assigned, in every occurrence",
  "Assigning a text, number or boolean to a declared variable or user field makes the declaration and every occurrence of that name in the document report that value with the matching type, by item access and by attribute alike. Variables and fields with other names, and all other document text, are unchanged.",
  ["inputs", "histories"], "every name and value (including zero, False and empty text), every number, kind and place of occurrences, every sequence of assignments",
  "Tests assign one non-empty string and one non-zero number to one variable with one occurrence.",
  ["ezodf/variables.py"],
  [("containers", "ezodf/variables.py:Variables"), ("declarations", "ezodf/variables.py:SimpleVariable"), ("user fields", "ezodf/variables.py:UserField"), ("occurrences", "ezodf/variables.py:SimpleVariableInstance")],
  ["value", "type", "instances", "text of occurrences"])
p("C19", "Date, date-time and duration strings convert to Python values and back",
  "Formatting any date, date-time (whole seconds) or non-negative duration and parsing the string gives the value back, durations to a tenth of a millisecond; kinds are never confused. Parsing a string of the documented form gives exactly the denoted value, with years counted as 365 and months as 30 days, and any other string raises ValueError.",
  ["inputs"], "every date, date-time and non-negative duration; every duration string with any subset of components",
  "Tests convert about twenty literals; carries, missing components, fractional seconds and years below 1000 are not covered systematically.",
  ["ezodf/timeparser.py"],
  [("parser", "ezodf/timeparser.py:TimeParser.parse"), ("formatter", "ezodf/timeparser.py:TimeParser.duration_to_string")],
  ["TimeParser.parse()", "str(TimeParser())"])
p("C20", "Typed attributes and lists keep what is assigned within their limits",
  "Numbering levels, start values, outline levels, space counts, visibility, boolean flags, style names, link targets and section/table protection return the value last assigned, clamped to the documented minimum, rejecting values outside the documented set; protecting an object sets a protection key. A list keeps its header, when set, as the single first header and its items in order, and ezlist builds exactly the given items.",
  ["inputs", "histories"], "every value and every sequence of assignments, list edits and header replacements",
  "Tests assign one valid value per attribute once.",
  ["ezodf/propertymixins.py", "ezodf/text.py", "ezodf/whitespaces.py", "ezodf/protection.py", "ezodf/__init__.py"],
  [("typed properties", "ezodf/propertymixins.py"), ("lists", "ezodf/text.py:List"), ("space count", "ezodf/whitespaces.py:Spaces.count")],
  ["attribute getters", "list header and items"])
p("C21", "A style container returns the style last stored under a name",
  "Looking up a style, font face or automatic/master style by name returns an object for the style most recently stored or loaded under that name, storing under an existing name replaces exactly that element in place, storing a new name appends, and unknown names raise KeyError, in any interleaving of lookups and stores.",
  ["inputs", "histories"], "every sequence of lookups and stores with equal or different names on empty or loaded containers",
  "Tests look up one injected style once.",
  ["ezodf/styles.py"],
  [("container and cache", "ezodf/styles.py:Container")],
  ["container[...]", "children of the container"])
p("C22", "Events reach exactly the live subscribers of the addressed document",
  "A broadcast calls the handler of every object subscribed to that event and still alive, once, with the given message - restricted to objects of the same XML root when a root is given - and no other object; unsubscribed or destroyed objects receive nothing, subscribing without a handler is rejected.",
  ["histories", "inputs"], "every sequence of subscribe, unsubscribe, destroy and broadcast over events, objects and roots (also roots without children)",
  "Tests subscribe at most two listeners to one event.",
  ["ezodf/observer.py"],
  [("observer", "ezodf/observer.py:Observer")],
  ["handler calls"])
p("C23", "A sheet has one handle, and copies are independent of the original",
  "Every access to a sheet through its document returns the same object until it is removed, and never an object of another sheet, so edits through any handle are seen through all. A copy has the new name (or 'CopyOf' plus the old), equal content, and from then on edits to either never show in the other.",
  ["histories"], "every sequence of sheet accesses, edits, copies, moves and deletions",
  "Tests compare two consecutive lookups of one sheet.",
  ["ezodf/wrapcache.py", "ezodf/table.py", "ezodf/pagecontainer.py"],
  [("handle cache", "ezodf/wrapcache.py:_WrapCache"), ("copy", "ezodf/table.py:Table.copy")],
  ["object identity", "cells of original and copy"])
p("C24", "Qualified names convert to the namespace they name, stably",
  "A 'prefix:local' name converts to '{uri}local' for the URI registered for the prefix at that moment, names already in Clark notation are returned unchanged, unknown prefixes raise KeyError and names without exactly one colon ValueError, the same on first and repeated conversion and after registering further or changed prefixes. Elements are wrapped by the class last registered for their tag, otherwise by the generic wrapper.",
  ["inputs", "histories"], "every tag string and every sequence of registrations and conversions",
  "Tests convert a few known tags on the global table.",
  ["ezodf/xmlns.py"],
  [("conversion and cache", "ezodf/xmlns.py:_XMLNamespaces"), ("class registry", "ezodf/xmlns.py:_ClassRegistry")],
  ["CN()", "wrap()"])
p("C25", "All views of a table show the same cells",
  "For every table and position inside it, access by tuple, by reference, through row(i)[j], column(j)[i], rows(), columns(), itercells() and negative indices yields the same underlying cell; row infos and column infos exist for every row and column, and a cell written through one view is read through all. Positions outside the table raise IndexError.",
  ["inputs", "histories"], "every table (new or loaded) and every position, positive or negative, inside or outside",
  "Tests read single fixed positions through single accessors.",
  ["ezodf/table.py", "ezodf/tablerowcontroller.py", "ezodf/tablecolumncontroller.py"],
  [("accessors", "ezodf/table.py:Table"), ("negative indices", "ezodf/tablerowcontroller.py:TableCellAccessor._adjust_negative_indices")],
  ["cells returned by every accessor"])
p("C26", "Saved content comes back on reopening",
  "Text, headings, lists, tables with cell values, types, currencies, formulas and spans, sheet names and order, metadata, keywords, user tags and injected styles that were put into a document are all read back equal after saving (to a file, a stream or bytes) and opening the result, and opening and saving without edits changes no content.",
  ["inputs", "histories"], "every document built with the API, every value and text in it, each target kind",
  "Tests save empty documents and compare member names.",
  ["ezodf/document.py", "ezodf/filemanager.py", "ezodf/xmlns.py", "ezodf/table.py", "ezodf/meta.py"],
  [("save", "ezodf/document.py:PackagedDocument"), ("serialisation", "ezodf/xmlns.py:XMLMixin.tobytes"), ("open", "ezodf/document.py:opendoc")],
  ["content read from the reopened document"])
p("C27", "The text shown in a cell is edited without touching its value",
  "plaintext() and display_form are the lines of the cell's paragraphs and headings, in order. Setting display_form on a cell with a value of any type but text replaces its first paragraph by one with that text, or appends one, and on empty and text cells raises TypeError. append_text on a text cell continues the paragraph or heading that is its last child, otherwise starts a new paragraph, so that the value is the concatenation, and raises TypeError on all other cells. Neither ever changes value (of a non-text cell), type, currency, other attributes or other children; a later set_value replaces all texts.",
  ["inputs", "histories"], "every text, every kind of cell, every arrangement of children of a loaded cell, every sequence of these operations",
  "Tests set one display form on a fresh cell and append one text; loaded cells with several paragraphs, headings or other objects are not sampled.",
  ["ezodf/cells.py", "ezodf/text.py"],
  [("display form", "ezodf/cells.py:Cell.display_form"), ("appended text", "ezodf/cells.py:Cell.append_text"), ("plain text", "ezodf/cells.py:Cell.plaintext")],
  ["Cell.plaintext()", "Cell.display_form", "Cell.value", "cell XML"])
p("C28", "The package check accepts exactly the complete packages of the asked type",
  "check_zipfile_for_oasis_validity(filename, mimetype) is True exactly when the file is a zip archive whose first member is the uncompressed file 'mimetype' holding exactly that type, which contains content.xml, meta.xml, styles.xml and META-INF/manifest.xml, and whose manifest lists the first three and '/', the latter with that type; otherwise (also for files that are no archive or do not exist) it is False, and the file is only read. Every package the library saves passes under its own type and under no other.",
  ["inputs", "configurations"], "every media type, every subset and order of members and manifest entries, every document type and way to make and save a document",
  "Tests check three valid files; a missing part, a wrong entry or a type that merely starts like the asked one is never tried.",
  ["ezodf/filemanager.py", "ezodf/document.py", "ezodf/manifest.py"],
  [("package check", "ezodf/filemanager.py:check_zipfile_for_oasis_validity"), ("package writer", "ezodf/filemanager.py:FileManager._tozip")],
  ["check_zipfile_for_oasis_validity()", "saved packages"])
p("C29", "Reading a document never changes it",
  "Looking at a document changes nothing in it: plain texts, text lengths, values, types, spans, names, infos, child and list iteration, lookups by index, position, cell reference, name or key (found, not found or out of range), metadata, user tags, counters, manifest, styles, variables and user fields, and serialising to bytes leave the content, the styles, the metadata and the manifest exactly as they were, and the same read, asked again, gives the same answer. (Opening a table expands its repetitions, and asking an empty numbered paragraph for its content creates it; both are documented and excluded.)",
  ["inputs", "histories"], "every element type of every document type, every readable attribute, every position, index, reference and name, found or not",
  "Tests look at return values and never at what a read left behind, least of all a read that failed.",
  ["ezodf/base.py", "ezodf/text.py", "ezodf/cells.py", "ezodf/table.py", "ezodf/variables.py", "ezodf/meta.py", "ezodf/styles.py", "ezodf/manifest.py", "ezodf/pagecontainer.py"],
  [("cell properties", "ezodf/cells.py:Cell.value"), ("lookup of positions", "ezodf/table.py:Table.get_cell"), ("lookup of names", "ezodf/pagecontainer.py:AbstractPageContainer.__getitem__"), ("manifest lookup", "ezodf/manifest.py:Manifest.find")],
  ["content, styles, meta and manifest XML", "the value of a second read"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
