#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

p("C01", "A damaged compound file never crashes or hangs the reader",
  "For every byte sequence presented as an OLE2 compound file, opening it, listing its streams and reading any stream either succeeds or returns an error. It never panics, never loops forever, and never allocates memory out of proportion to the file size.",
  ["inputs"], "all header fields, FAT/DIFAT/mini-FAT entries, directory entries and truncation points of a compound file",
  "Tests open five healthy files; damaged chains (cycles, out-of-range sector ids, truncated last sector, absurd counts) are never exercised.",
  ["xls/cfb/cfb.go", "xls/cfb/interface.go", "xls/cfb/slicereader.go"],
  [("Document.load", "xls/cfb/cfb.go"), ("Document.buildDirs", "xls/cfb/cfb.go"), ("getStreamReader / getMiniStreamReader", "xls/cfb/cfb.go"), ("Document.Open/List", "xls/cfb/interface.go")],
  observe=["cfb.Open", "Document.List", "Document.Open", "Read of the returned stream"])
p("C02", "A damaged xls workbook stream never crashes or hangs the reader",
  "For every content of the Workbook stream of an .xls file, opening the workbook and fetching and reading any of its sheets either succeeds or returns an error. It never panics, never loops forever, and never allocates memory beyond what the record data, or the largest sheet of the format (65536 rows by 256 columns), calls for.",
  ["inputs"], "all record types, record sizes and record payloads, in any order, including truncated and contradictory ones",
  "Tests only parse well-formed files produced by spreadsheet programs; short records, missing BOF, wrong counts and missing continuation records are never exercised.",
  ["xls/xls.go", "xls/sheets.go", "xls/strings.go", "xls/hyperlinks.go", "commonxl/sheet.go"],
  [("loadFromStream2 / nextRecord", "xls/xls.go"), ("parseSheet", "xls/sheets.go"), ("parseSST and string decoders", "xls/strings.go"), ("decodeHyperlinks", "xls/hyperlinks.go")],
  observe=["xls.Open", "WorkBook.Get", "Collection.Next/Strings"])
p("C03", "A damaged xlsx part never crashes the reader",
  "For every content of the XML parts of an .xlsx package (relationships, workbook, styles, shared strings, sheets), opening the file and fetching and reading any sheet either succeeds or returns an error. It never panics, whatever cell references, style or string indexes, cell types, merge or hyperlink ranges the parts contain.",
  ["inputs"], "all attribute values and character data of the parts, well-formed XML or not",
  "Tests open three healthy packages; malformed references, indexes out of range and unexpected element order never occur in them.",
  ["xlsx/xlsx.go", "xlsx/workbook.go", "xlsx/sheets.go", "xlsx/types.go", "commonxl/sheet.go"],
  [("parseRels/parseWorkbook/parseStyles/parseSharedStrings", "xlsx/workbook.go"), ("Sheet.parseSheet", "xlsx/sheets.go"), ("refToIndexes", "xlsx/types.go")],
  observe=["xlsx.Open", "Document.Get", "Collection.Next/Strings"])
p("C04", "Compound-file streams are returned byte for byte",
  "For every well-formed compound file, the reader lists every stream in its directory and returns for each exactly the stream's declared number of bytes, taken in order along the stream's sector chain; a stream of the document itself is never replaced by one of an embedded document of the same name. This holds for streams stored in regular sectors and in the mini stream, for any placement of their sectors, and wherever the entry sits in the directory.",
  ["inputs", "configurations"], "all sector placements (chains), stream sizes, stream contents and directory positions of a valid file",
  "The five test files have contiguous chains and the stream in the first directory sector; fragmented chains, sizes at sector boundaries and long directories are not sampled.",
  ["xls/cfb/cfb.go", "xls/cfb/interface.go"],
  [("FAT / mini FAT chain walk", "xls/cfb/cfb.go: getStreamReader, getMiniStreamReader"), ("directory chain", "xls/cfb/cfb.go: buildDirs")],
  observe=["cfb.Open", "Document.List", "Document.Open", "io.ReadAll of the stream"])
p("C05", "An opened stream behaves like one flat seekable file",
  "A stream made of any list of memory slices answers every sequence of Read and Seek calls exactly as a single in-memory file with the concatenated contents would: same bytes, same positions, end of file only at the end. Seeking to a position inside or at the end of the stream always succeeds, and seeking before the start is an error that leaves no crash behind.",
  ["inputs", "histories"], "all slice lists, and all sequences of Read(n) and Seek(offset, whence)",
  "The one test does six seeks on one fixed list of five 10-byte slices.",
  ["xls/cfb/slicereader.go"], [("SliceReader.Read", "xls/cfb/slicereader.go"), ("SliceReader.Seek", "xls/cfb/slicereader.go")],
  state=[("Index/Offset", "current slice and offset in it", "xls/cfb/slicereader.go"), ("CSize", "cumulative slice starts", "xls/cfb/slicereader.go")],
  observe=["SliceReader.Read", "SliceReader.Seek"])
p("C06", "An RC4-encrypted workbook reads exactly like its plain version",
  "For every workbook stream encrypted with the standard RC4 scheme and the default password, the opened workbook yields the same sheets, strings and cell values as the same workbook stored unencrypted. Record headers, and the records that the format keeps in the clear, are taken over unchanged, and a stream whose password verifier does not match is refused with an error.",
  ["inputs"], "all record layouts, sizes (across the 1024-byte re-keying blocks) and contents of the encrypted stream",
  "No test file is encrypted; the decryption path is not run by any test.",
  ["xls/xls.go", "xls/crypto/rc4.go", "xls/crypto/crypto.go"],
  [("loadFromStreamWithDecryptor overlays", "xls/xls.go"), ("rc4Writer", "xls/crypto/rc4.go"), ("NewBasicRC4/Verify", "xls/crypto/crypto.go")],
  observe=["xls.Open", "WorkBook.List", "Collection.Strings/Scan"])
p("C07", "Decryption does not depend on how the data is fed in",
  "For every way of splitting the encrypted data into writes, the decryptor yields the same bytes: each byte is decrypted with the keystream of its own 1024-byte block, and exactly as many bytes come out as went in. After a reset the decryptor starts over from block zero with nothing buffered.",
  ["inputs", "histories"], "all data contents, all splits into Write calls, flush at the end, reset at any point",
  "No test touches the crypto package.",
  ["xls/crypto/rc4.go", "xls/crypto/crypto.go"], [("Write/Flush/startBlock/Reset", "xls/crypto/rc4.go")],
  state=[("block, offset, bytes", "current block number, fill level and block buffer", "xls/crypto/rc4.go")],
  observe=["Decryptor.Write", "Decryptor.Flush", "Decryptor.Bytes", "Decryptor.Read"])
p("C08", "xls shared strings survive any record split and encoding",
  "Every string of an .xls shared string table is decoded to exactly its characters, in order, whether stored as 8-bit or 16-bit characters, with or without rich-text runs and phonetic data. The result is the same wherever the table is cut into continuation records, including cuts inside a string where the character width changes.",
  ["inputs"], "all string contents, encodings, formatting-run and phonetic sizes, and all legal split positions",
  "The test files hold a few short ASCII strings in a single record; no continuation record occurs.",
  ["xls/strings.go", "xls/xls.go"], [("parseSST", "xls/strings.go"), ("collecting continuation records", "xls/xls.go: loadFromStream2")],
  observe=["cells of a sheet that reference the strings"])
p("C09", "Every xls cell record yields its value at its position",
  "For every well-formed number, packed number, multi-number, boolean, error and shared-string cell record, the sheet shows the stored value with the matching type at the stored row and column. No other cell of the sheet changes, whatever the order of the records and whichever rows and columns they name.",
  ["inputs"], "all rows, columns, values and style indexes of the cell records, including cells outside the declared dimensions",
  "Tests compare two small sheets; most record types, negative, large and fractional values and out-of-dimension cells are not present.",
  ["xls/sheets.go", "commonxl/sheet.go", "commonxl/cell.go"], [("parseSheet record switch", "xls/sheets.go"), ("Sheet.Put", "commonxl/sheet.go")],
  observe=["WorkBook.Get", "Collection.Scan/Types/Strings"])
p("C10", "Packed xls numbers (RK) decode to the value they encode",
  "For every one of the 2^32 packed numbers, the decoded value is the one the format defines: a signed 30-bit integer or the upper 30 bits of a double, divided by 100 when the hundredths flag is set. Values stored as integers without the hundredths flag stay integers, and every reader of packed numbers (single, multi-number, display) agrees.",
  ["inputs"], "all 2^32 bit patterns",
  "Tests see a handful of small integers; negative, fractional and hundredths patterns are not sampled.",
  ["xls/structs.go", "xls/sheets.go"], [("RKNumber.IsInteger/Int/Float64", "xls/structs.go")],
  observe=["xls.RKNumber methods", "Collection.Scan"])
p("C11", "xls sheet list, visibility and content selection are faithful",
  "The listed and the hidden sheets together are exactly the workbook's sheets in order, split by visibility. Fetching a sheet by name returns the cells of the section that starts at that sheet's recorded position and no cells of other sheets or of charts embedded in it, and unknown names give an error.",
  ["inputs", "configurations"], "all numbers and orders of sheets, visibility states, names, section positions and nested embedded sections",
  "Test files have visible sheets in order and no embedded charts.",
  ["xls/xls.go", "xls/sheets.go"], [("substreams / pos2substream", "xls/xls.go"), ("List/ListHidden/Get", "xls/sheets.go"), ("inSubstream skipping", "xls/sheets.go")],
  observe=["WorkBook.List", "WorkBook.ListHidden", "WorkBook.Get"])
p("C12", "xls formula results are shown completely and in the right cell",
  "A formula cell shows its stored result: a number, boolean, error text, or the complete text of its string result. String results keep every character, whether stored as 8-bit or 16-bit characters and however they continue over following records.",
  ["inputs"], "all result kinds, values, text lengths, encodings and continuation splits",
  "Test files contain at most simple numeric formulas; text results with continuation or non-ASCII characters are not present.",
  ["xls/sheets.go"], [("RecTypeFormula / RecTypeString handling", "xls/sheets.go")],
  observe=["Collection.Strings/Types"])
p("C13", "Merged ranges keep their value and mark exactly their cells",
  "For every merged range inside the sheet, the top-left cell keeps its own value, the other cells of the range show the row and column continuation and end markers, and no cell outside the range changes. The same range produces the same markers in .xls and .xlsx files.",
  ["inputs"], "all rectangles within the sheet, with any surrounding cell contents",
  "Tests do not compare any merged range.",
  ["xls/sheets.go", "xlsx/sheets.go", "grate.go"], [("RecTypeMergeCells", "xls/sheets.go"), ("mergeCell", "xlsx/sheets.go")],
  observe=["Collection.Strings"])
p("C14", "Hyperlinks are extracted completely without losing cell content",
  "For every hyperlink record of an .xls file (URL, file or text target, with or without display text, frame and location), the linked cell shows the display text and the target. A hyperlink on an .xlsx cell is recorded on the cell or cells its reference names, and a link without an external target leaves the cell's text alone.",
  ["inputs"], "all target kinds, texts, flag combinations and references",
  "No test compares hyperlinks.",
  ["xls/hyperlinks.go", "xls/sheets.go", "xlsx/sheets.go", "commonxl/cell.go"], [("decodeHyperlinks / parseHyperlinkMoniker", "xls/hyperlinks.go"), ("hyperlink element", "xlsx/sheets.go"), ("Cell.SetURL/URL", "commonxl/cell.go")],
  observe=["Collection.Strings/Types", "Cell.URL"])
p("C15", "The sheet grid obeys put-and-read-back laws",
  "After any sequence of writes to a sheet, reading row by row returns in every cell the last value written there and a blank where nothing was written. Iteration delivers each row exactly once from first to last, the grid grows to hold cells outside the declared size, and growing never loses or moves a value.",
  ["inputs", "histories"], "all sequences of resize and put with any coordinates and values",
  "There is no test of the sheet type; the file tests fill it in one order with in-range cells.",
  ["commonxl/sheet.go"], [("Resize/Put/Next/Strings/Raw", "commonxl/sheet.go")],
  state=[("Rows, NumRows, NumCols, CurRow", "grid and iterator", "commonxl/sheet.go")],
  observe=["Sheet.Put/Resize/Next/Strings/Raw"])
p("C16", "A row's strings, types and formats always line up",
  "For every row of every source, the lists of strings, types and formats have the same length and element i of each describes the same cell. Every type is one of the documented type names, and blank cells have the type blank and the empty string.",
  ["inputs", "histories"], "all cell kinds, formats and row shapes, in spreadsheet and plain-text sources",
  "No test calls the type or format listing.",
  ["commonxl/sheet.go", "commonxl/cell.go", "simple/simple.go", "grate.go"], [("Strings/Types/Formats", "commonxl/sheet.go"), ("CellType.String", "commonxl/cell.go")],
  observe=["Collection.Strings", "Collection.Types", "Collection.Formats"])
p("C17", "Scan delivers the exact cell values or a clear error",
  "Scanning a row into pointers of the documented types stores exactly the cell's value when the type matches. An unsupported destination type gives the documented invalid-scan error, a mismatch or more destinations than the row has fields gives an error, and no call to Scan with usable pointers panics. In text sources numbers are read exactly or refused, and a boolean is true for the usual words (1, t, true, y, yes) and false for all others.",
  ["inputs"], "all cell values and kinds and all destination type lists",
  "No test calls Scan.",
  ["commonxl/sheet.go", "simple/simple.go", "grate.go", "errs.go"], [("Sheet.Scan", "commonxl/sheet.go"), ("simpleFile.Scan", "simple/simple.go")],
  observe=["Collection.Scan"])
p("C18", "Every value can be displayed under every number format id",
  "For every number format id, known or unknown, and every value a cell can hold, formatting returns a text and never panics, and it reports as known exactly the built-in and registered ids. Registering a custom format never changes the meaning of a built-in or already registered id.",
  ["inputs", "histories"], "all 65536 format ids, all value kinds, all sequences of registrations",
  "Tests call a few formatters directly with numbers and dates; ids without a definition, texts and blanks are not sampled.",
  ["commonxl/formats.go", "commonxl/fmt.go"], [("Formatter.Apply/Get/Add", "commonxl/formats.go")],
  observe=["Formatter.Apply", "Formatter.Get", "Formatter.Add"])
p("C19", "Text cells show their text unchanged under any number format",
  "A cell holding text that does not spell a number shows exactly that text, whatever number, date, currency or percent format is attached to it. An empty or absent value shows as the empty string under every format.",
  ["inputs"], "all texts and all built-in format ids",
  "File tests only put text under the general format.",
  ["commonxl/sheet.go", "commonxl/cell.go", "commonxl/fmt.go", "commonxl/dates.go"], [("NewCellWithType", "commonxl/cell.go"), ("format functions on non-numeric values", "commonxl/fmt.go")],
  observe=["Sheet.Put then Sheet.Strings"])
p("C20", "Formatted whole numbers keep digits, sign and grouping",
  "Under the integer, thousands, accounting and currency formats every whole number is shown with exactly its decimal digits, a comma between each group of three digits counted from the right, and its sign shown by the format's own convention (minus or parentheses). Zero uses the format's zero form.",
  ["inputs"], "all 64-bit whole numbers and all built-in integer formats",
  "The comma test stops at its first wrong expectation and covers powers of ten only.",
  ["commonxl/fmt.go", "commonxl/formats.go"], [("addCommas/addNegParens/sprintfFunc/zeroDashFunc/switchFmtFunc", "commonxl/fmt.go")],
  observe=["Formatter.Apply"])
p("C21", "Date serials convert to the right calendar date and time",
  "Every serial day number from 61 on in the 1900 system, and from 0 on in the 1904 system, converts to the calendar day that many days after the system's epoch, and a serial made from a clock time with whole seconds converts back to that same second. Later serials never convert to earlier times.",
  ["inputs"], "all serial days in Excel's range, all seconds of the day, both date systems",
  "The date test only checks that ten dates format without panicking; serial conversion is not tested.",
  ["commonxl/dates.go"], [("Formatter.ConvertToDate", "commonxl/dates.go")],
  observe=["Formatter.ConvertToDate"])
p("C22", "The workbook's own date system is used for its dates",
  "A workbook that declares the 1904 date system shows its dates counted from 1904, and every other workbook counts from 1900. This holds for .xls and .xlsx files and is not affected by other workbooks opened in the same process.",
  ["inputs", "histories"], "both declarations, all date values, any interleaving of opened workbooks",
  "No test file declares the 1904 system.",
  ["xls/xls.go", "xlsx/workbook.go", "commonxl/formats.go", "commonxl/dates.go"], [("Date1904 record", "xls/xls.go"), ("workbookPr", "xlsx/workbook.go"), ("Mode1904", "commonxl/formats.go")],
  observe=["Collection.Scan into time.Time", "Collection.Strings"])
p("C23", "Turning a value into a cell never alters it",
  "A cell made from any integer, float, boolean, text or time value holds that same value: integers keep their exact value and sign (unsigned values too large for a signed integer become the nearest float), texts keep every character. Coercing a cell to a format's type keeps numbers numerically equal, truncates only when a float is shown as an integer, rounds to the nearest float only when a large integer is shown as a float, and keeps anything that cannot be converted.",
  ["inputs"], "all values of every supported Go type and all target cell types",
  "No test creates cells directly.",
  ["commonxl/cell.go"], [("NewCell", "commonxl/cell.go"), ("NewCellWithType", "commonxl/cell.go")],
  observe=["commonxl.NewCell", "commonxl.NewCellWithType"])
p("C24", "Cell comparison is consistent",
  "For every two cells, equality is symmetric and every cell equals itself, numeric cells (NaN aside) are equal exactly when their numbers are, an integer and a float being compared as floats, and at most one of the two cells is less than the other, for two numbers exactly the smaller one. Comparing never panics, whatever the cell kinds.",
  ["inputs"], "all pairs of cell kinds and values",
  "The file tests use equality between texts and numbers of the same file only.",
  ["commonxl/cell.go"], [("Cell.Equal", "commonxl/cell.go"), ("Cell.Less", "commonxl/cell.go")],
  observe=["Cell.Equal", "Cell.Less"])
p("C25", "xlsx cell references address exactly the cell they name",
  "For every column from A to XFD and every row number, a value stored under an A1 style reference appears at exactly that column and row and nowhere else. Sheets with and without a declared dimension behave the same. A cell stored without a reference stands right of the cell before it, and a row without an index below the row before it.",
  ["inputs"], "all 16384 column names, all rows, with or without declared dimensions",
  "Test sheets use columns A to J.",
  ["xlsx/types.go", "xlsx/sheets.go"], [("col2int/refToIndexes", "xlsx/types.go"), ("dimension and cell handling", "xlsx/sheets.go")],
  observe=["Collection.Next/Strings"])
p("C26", "xlsx cells show their stored value, and only that",
  "For every cell type (number, boolean, error, shared string, inline string, formula text) an .xlsx cell shows the value of its value or inline-text element, complete even when the XML splits the text into several pieces. Characters of texts that are written as _xHHHH_ are decoded. Formula source text, layout whitespace between elements and phonetic hints never appear as cell content.",
  ["inputs"], "all cell types, texts, XML layouts (whitespace, entities, CDATA, comments, multiple runs) and shared string tables",
  "The test packages were written by one program with one layout.",
  ["xlsx/sheets.go", "xlsx/workbook.go"], [("parseSheet character data handling", "xlsx/sheets.go"), ("parseSharedStrings", "xlsx/workbook.go")],
  observe=["Collection.Strings/Types/Scan"])
p("C27", "Cell styles resolve to the number format they reference",
  "In .xls and .xlsx files, a cell's style index selects the number format of exactly that style entry, custom formats are found under their own id, and an out-of-range style index means the general format. Styles of base entries are applied only as the override flag says.",
  ["inputs", "configurations"], "all style tables, format ids, override flags and cell style indexes",
  "Only one test pair is compared and none of the compared cells checks its format.",
  ["xls/xls.go", "xls/sheets.go", "xlsx/workbook.go", "xlsx/sheets.go"], [("XF records", "xls/xls.go"), ("parseStyles", "xlsx/workbook.go")],
  observe=["Collection.Formats", "Collection.Types"])
p("C28", "File formats are tried in priority order and errors are kept",
  "Opening a file tries the registered formats by ascending priority, whatever the order of registration, and returns the first source that accepts the file. A format answering that the file is not in its format, directly or wrapped, passes the file on; any other error is returned at once; if all pass, the unknown-format error is returned.",
  ["inputs", "histories"], "all registration orders, priorities and outcome combinations of the openers",
  "No test registers or dispatches formats.",
  ["grate.go", "errs.go"], [("Open", "grate.go"), ("Register", "grate.go"), ("WrapErr", "errs.go")],
  state=[("srcTable", "registered openers sorted by priority", "grate.go")],
  observe=["grate.Open", "grate.Register"])
p("C29", "A tab-separated file is delivered verbatim",
  "For every text file that the format detection does not decline, the rows delivered are exactly its lines (ending in LF or CRLF) in order and the fields of a row are exactly the pieces between tabs, including empty fields, the last line without newline, and empty lines. Small files and files whose lines all have the same number of fields are never declined. A file that cannot be read completely, such as one with a line beyond 64 KB, is an error, never a shortened table.",
  ["inputs", "fault_sequences"], "all file contents up to the bound",
  "The package has no tests.",
  ["simple/tsv.go", "simple/simple.go"], [("OpenTSV", "simple/tsv.go"), ("simpleFile iteration", "simple/simple.go")],
  observe=["simple.OpenTSV", "Collection.Next/Strings"])
p("C30", "A comma-separated file is delivered verbatim",
  "For every well-formed CSV file that the format detection does not decline, the source opens without error and delivers exactly the records and fields of the file, with quoting undone and field counts free to vary (empty lines are no records). Small files and files whose records all have the same number of fields are never declined. A file that breaks the CSV syntax is reported as not in this format.",
  ["inputs"], "all file contents up to the bound",
  "The package has no tests.",
  ["simple/csv.go", "simple/simple.go"], [("OpenCSV", "simple/csv.go")],
  observe=["simple.OpenCSV", "Collection.Next/Strings"])
p("C31", "Iterators and workbooks are independent of each other",
  "Every call that fetches a sheet returns an iterator that stands before the first row and delivers all rows, no matter how far earlier iterators of the same sheet were advanced, and whatever a caller stores in the lists and cells that a row returned. Opening, reading and closing one workbook never changes what another open workbook, or a sheet already fetched from it, delivers.",
  ["histories"], "all interleavings of open, fetch, advance and close over several workbooks and sheets",
  "Tests fetch each sheet once and hold one workbook at a time.",
  ["xls/xls.go", "xls/sheets.go", "xlsx/xlsx.go", "simple/simple.go", "commonxl/sheet.go"], [("record pool", "xls/xls.go: recPool, Close"), ("sheet cache", "xlsx/xlsx.go: Get"), ("Get", "simple/simple.go")],
  state=[("recPool", "records shared between workbooks", "xls/xls.go"), ("wrapped", "cached parsed sheet", "xlsx/sheets.go")],
  observe=["WorkBook.Get/Close", "Document.Get", "Collection.Next/Strings"])
p("C32", "A damaged or unreadable part is reported, never silently cut",
  "When reading a part of an .xlsx package fails midway (bad checksum, truncated data, broken XML), opening the file or fetching the sheet returns an error. A sheet is never delivered without error while some of its stored rows are missing.",
  ["fault_sequences", "inputs"], "a read fault or XML break at every position of every part",
  "Test packages are intact.",
  ["xlsx/xlsx.go", "xlsx/workbook.go", "xlsx/sheets.go"], [("token loops and their error exits", "xlsx/workbook.go, xlsx/sheets.go")],
  observe=["xlsx.Open", "Document.Get"])
p("C33", "Wrapped errors stay recognisable",
  "An error built from several errors shows the message of the first and is recognised as any of its members by the standard error tests, however deeply it is wrapped again. Wrapping a single error returns that error itself.",
  ["inputs"], "all numbers and nestings of wrapped errors",
  "There is no test of error wrapping.",
  ["errs.go"], [("WrapErr", "errs.go")], observe=["grate.WrapErr", "errors.Is"])
p("C34", "Fraction formats show a near small fraction",
  "Under the fraction formats every number is shown as a whole part and a fraction whose numerator and denominator have at most the allowed digits, and whose value differs from the number by less than one unit of the largest allowed denominator. A number that is a fraction with an allowed denominator is shown exactly, and the sign is kept.",
  ["inputs"], "all numbers and digit counts",
  "A few fractions are tested; tiny, negative and very large numbers are not.",
  ["commonxl/numbers.go", "commonxl/fmt.go"], [("DecimalToFraction/DecimalToWholeFraction", "commonxl/numbers.go"), ("fracFmtFunc", "commonxl/fmt.go")], observe=["Formatter.Apply"])
p("C35", "Custom number format codes are accepted without harm",
  "For every format code string, registering it succeeds or fails with an error and formatting any value with it returns a text; nothing panics. A code with date or time fields shows exactly those fields of a date in order (m next to hours or seconds is minutes), a code with digit places shows the number with its sign, grouping, decimals and percent, sections apply to positive, negative and zero numbers, and quoted or escaped literals are shown literally without changing what the code is.",
  ["inputs"], "all format code strings and values",
  "One yes/no code is tested.",
  ["commonxl/formats.go"], [("makeFormatter", "commonxl/formats.go")], observe=["Formatter.Add", "Formatter.Apply"])
p("C36", "The batch extractor writes every row of every file",
  "For every list of input files, any number of processors and every schedule of its goroutines, the batch tool comes to an end and writes, for each sheet with values, one output file of its own holding exactly the sheet's rows (white space condensed, trimmed and blank rows dropped as the options say, nothing at all when only pretending), and appends to the result file one line per sheet with its number of written rows and of columns, or one line with the error of a file that cannot be read.",
  ["schedules", "inputs"], "all worker schedules, file lists, options and cell texts",
  "The command has no tests, and its goroutines, pool and channels have more schedules than runs could sample.",
  ["cmd/grate2tsv/main.go"], [("main/runProcessor/processFile", "cmd/grate2tsv/main.go"), ("cleanup/outpool", "cmd/grate2tsv/main.go")], observe=["results directory", "results.txt"])

p("C37", "Files are closed again",
  "Whenever opening a file fails or another format is tried, and whenever an opened workbook or table has been closed, no open file handle on it is left, whatever the file contains and at whatever point reading failed.",
  ["inputs", "faults"], "all contents, truncation points and part faults of the files, successful and failed opens",
  "Leaked handles do not change any result a test looks at; they only show after thousands of files in one process.",
  ["xls/cfb/interface.go", "xls/xls.go", "xlsx/xlsx.go", "simple/tsv.go", "simple/csv.go"],
  [("Open", "xls/cfb/interface.go"), ("Open/Close", "xlsx/xlsx.go"), ("OpenTSV", "simple/tsv.go"), ("OpenCSV", "simple/csv.go")], observe=["open file handles of the process after a failed Open and after Close"])

p("C38", "Decimal numbers are rounded to the places of their format",
  "Under every number format with a fixed number of decimals (plain, thousands, currency, accounting, percent, scientific, built-in or custom) a number is shown with exactly that many decimals, the value shown differs from the number by at most half a unit of the last decimal, and sign, currency and group separators are those of the format. Only a number that is exactly zero is shown in the format's zero form.",
  ["inputs"], "all decimal numbers and all such formats",
  "A handful of numbers is tested, none of them at a rounding or grouping boundary.",
  ["commonxl/fmt.go", "commonxl/formats.go"], [("sprintfFunc/addCommas/addNegParens/zeroDashFunc/switchFmtFunc", "commonxl/fmt.go"), ("makeFormatter", "commonxl/formats.go")], observe=["Formatter.Apply", "Collection.Strings"])
p("C39", "Built-in date and time formats show what their code says",
  "Every built-in date and time format shows exactly the fields of its format code in order (year, month, day, weekday, hours of the 24 or 12 hour clock, minutes, seconds, morning or afternoon), with the code's literal text between them and without its quotes, for every date and time.",
  ["inputs"], "all built-in date and time formats, dates and times",
  "Ten built-in formats are tested with a single date each; the Chinese and Thai ones and the elapsed times are not.",
  ["commonxl/fmt.go", "commonxl/dates.go"], [("goFormatters", "commonxl/fmt.go"), ("timeFmtFunc/cnTimeFmtFunc", "commonxl/dates.go"), ("builtInFormats", "commonxl/formats.go")], observe=["Formatter.Apply", "Collection.Strings"])

p("C40", "A sheet is empty exactly when it has no data values",
  "IsEmpty of a sheet of either workbook format, or of one that is built cell by cell, is true exactly if no cell has a value: a single cell anywhere makes it false, whatever its kind, and declared sizes, blank or merely styled cells and rows without cells leave it true. A text table is empty exactly without rows. Reading the rows does not change the answer.",
  ["inputs"], "all sheets: kinds and places of cells, declared sizes",
  "No test asks for it; the batch tool skips sheets that are called empty, so that a wrong answer loses data.",
  ["commonxl/sheet.go", "simple/simple.go", "grate.go"], [("Sheet.IsEmpty", "commonxl/sheet.go"), ("simpleFile.IsEmpty", "simple/simple.go")], observe=["Collection.IsEmpty"])

p("C41", "The command grater prints every row of every file",
  "For every list of files, the command prints to its standard output one line for each row of each sheet that can be read, in the order of files, sheets and rows, holding the row's texts joined by tabs (with -v a line of the types in front of it), and nothing else. A file or sheet that cannot be read is told on the standard error and stops none of the others, and every file is closed again.",
  ["inputs", "faults"], "all lists of files, contents and faults",
  "The command has no tests.",
  ["cmd/grater/main.go"], [("main", "cmd/grater/main.go")], observe=["standard output", "standard error", "open file handles"])

p("C42", "An xlsx workbook's sheets are found where its relationships say",
  "The sheets of an .xlsx workbook are listed in their order under their names, and a sheet's name fetches the rows and the link targets of the part that its relationship names and of no other, wherever workbook, sheets, styles and shared strings lie in the package, whether they are referred to by relative or absolute names, and in whatever order sheets, relationships and parts come. Names that are not the workbook's, and chart sheets, give an error.",
  ["inputs", "configurations"], "all folder layouts, relationship targets, ids and orders, sheet names and attributes",
  "The test packages were written by one program with one layout, ids and orders that agree, and plain names.",
  ["xlsx/workbook.go", "xlsx/xlsx.go"], [("parseRels/parseWorkbook", "xlsx/workbook.go"), ("Open/openXML/List/Get", "xlsx/xlsx.go"), ("parseSheet relationship part", "xlsx/sheets.go")], observe=["Document.List", "Document.Get"])

p("C43", "Files can be read at the same time",
  "Goroutines that each open, read and close files of their own, or format values with formatters of their own, do not disturb each other: no memory that they share is written without synchronisation, and each sees exactly what it would see alone, whatever the formats and contents of the files, damaged ones included.",
  ["schedules", "inputs"], "all files and values, all interleavings of their readers",
  "The tests read one file after the other, and a data race rarely shows in a run; the batch command reads with a worker for every processor.",
  ["xls/", "xlsx/", "simple/", "commonxl/", "grate.go"], [("Open", "grate.go, xls/xls.go, xlsx/xlsx.go, simple/*.go"), ("parseSheet/readers", "xls/sheets.go, xls/strings.go, xlsx/sheets.go"), ("Formatter.Apply/Add and the tables of formats", "commonxl/formats.go, commonxl/fmt.go")], observe=["writes to shared memory", "Collection.Strings/Types/Formats/Scan", "Formatter.Apply"])

p("C44", "The same table reads the same from .xls and .xlsx",
  "A table saved as an .xls and as an .xlsx workbook - sheets, numbers, booleans, errors, texts, results of formulas, empty cells, number formats, date system, merged ranges - is delivered alike from both through grate.Open: the same sheets, the same number of rows and columns, and in every cell the same text, type, number format and scanned value. (Errors in .xls have no number format; the text of a linked cell in .xls has the address behind it.)",
  ["inputs", "configurations"], "all tables, formats and date systems",
  "The tests compare a few files of each format with their own expectations and never one format with the other.",
  ["xls/", "xlsx/", "commonxl/", "grate.go"], [("parseSheet", "xls/sheets.go, xlsx/sheets.go"), ("styles", "xls/structs.go, xlsx/workbook.go"), ("Sheet/Cell/Formatter", "commonxl/sheet.go, commonxl/cell.go, commonxl/formats.go")], observe=["Source.List", "Collection.Strings/Types/Formats/Scan/IsEmpty"])

p("C45", "Every file is opened in its own format",
  "grate.Open reads an .xls or .xlsx workbook with the reader of its format, a text with tabs as tab-separated and a text with commas and without tabs as comma-separated, whatever the file is called and however short it is, and delivers what that format's own reader delivers. The readers of .xls and .xlsx answer ErrNotInFormat for every file of another format.",
  ["inputs", "configurations"], "all files of the four formats, all names",
  "The tests open a few files of each format, comma-separated ones only with their own reader.",
  ["grate.go", "simple/", "xls/xls.go", "xlsx/xlsx.go"], [("Open/Register", "grate.go"), ("OpenTSV", "simple/tsv.go"), ("OpenCSV", "simple/csv.go"), ("Open", "xls/xls.go, xlsx/xlsx.go, xls/cfb/cfb.go")], observe=["grate.Open", "Collection.Strings", "errors"])

p("C46", "Debug output changes nothing",
  "With grate.Debug set, every file that can be opened without it is opened, with the same sheets, rows, texts, types, formats, values and errors, and no file - damaged ones included - crashes the reader only because of its messages.",
  ["inputs", "configurations"], "all files, damaged ones included",
  "The tests never set grate.Debug; the command grater does with -v.",
  ["xls/", "xlsx/", "commonxl/sheet.go", "grate.go"], [("messages under grate.Debug", "xls/xls.go, xls/sheets.go, xlsx/*.go, commonxl/sheet.go"), ("recordType.String", "xls/records.go")], observe=["Source.List", "Collection.Strings/Types/Formats/Scan"])

p("C47", "General cells show the number itself",
  "A cell without a number format, with the General format, a text format or an unknown format id shows its number: whole numbers with exactly their digits, fractions exactly when they are short and to six significant digits or better otherwise, large and small ones with an exponent, always with the right sign and magnitude; booleans show TRUE or FALSE. A format code that has General beside other text shows the number with that text.",
  ["inputs"], "all values",
  "The tests compare a few cells of sample files.",
  ["commonxl/fmt.go", "commonxl/formats.go", "commonxl/sheet.go"], [("identFunc", "commonxl/fmt.go"), ("makeSection", "commonxl/formats.go"), ("Sheet.Strings", "commonxl/sheet.go")], observe=["Formatter.Apply", "Sheet.Strings"])

p("C48", "Content without cells changes nothing",
  "Whatever else applications store in a workbook - xls records of other types with or without continuation, row sizes and sheet options, xlsx elements, attributes, comments and parts that are not known - leaves sheets, rows, texts, types, formats and values as they are without it. A dialog sheet alone is refused, the sheets beside it are read.",
  ["inputs"], "all workbooks with additional content",
  "The tests have a few files of a few applications.",
  ["xls/xls.go", "xls/sheets.go", "xlsx/"], [("loadFromStream2/parseSheet", "xls/xls.go, xls/sheets.go"), ("parseSheet", "xlsx/sheets.go"), ("parseRels/parseWorkbook/parseStyles/parseSharedStrings", "xlsx/workbook.go")], observe=["grate.Open", "Source.List", "Collection.Strings/Types/Formats/Scan"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
