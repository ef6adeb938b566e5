prop("C01", "Every path of Open, List, stream Open and Read over damaged compound files within the stated bounds ends without panic, endless loop or oversized allocation; files of at most 5.5 KB with up to about ten symbolic words each.", [
 h("hcfb.CrashHeader", 6, 60, "file of header + 2 sectors; version, shift, FAT/DIFAT counts, first directory and mini FAT sector, first DIFAT entry and 3 words of each sector symbolic", ["opened", "refused"]),
 h("hcfb.CrashShort", 4, 30, "files cut at 25 lengths from 0 to 2.3 KB, three header words symbolic; below 80 bytes every byte symbolic", ["opened", "refused"]),
 h("hcfb.CrashChains", 8, 400, "5 sectors; 2 FAT entries, 3 (thorough 4) mini FAT entries, root and stream start and size symbolic", ["stream-read", "stream-refused"]),
 h("hcfb.CrashDir", 8, 60, "3 sectors; 2 FAT entries and one directory entry (name, name length, type, start, size) symbolic in each of 4 slots", ["opened", "stream-refused"]),
 h("hcfb.CrashBig", 20, 200, "10 sectors with or without a partial last sector; 3 FAT entries, stream start and size symbolic", ["stream-read", "stream-refused"]),
 h("hcfb.CrashDIFAT", 4, 30, "3 sectors; DIFAT start, count, links and entries symbolic", ["opened", "refused"]),
])
prop("C04", "Streams of valid compound files are compared byte for byte with the written contents over symbolic placements, sizes, directory slots and content bytes.", [
 h("hcfb.ValidBig", 20, 60, "16 sectors of 512 bytes, stream of 7 sizes from 4096 to 5120, every start sector and 4 strides of the chain, every slot of 2 directory sectors, content bytes symbolic", ["stream"]),
 h("hcfb.ValidMini", 6, 30, "150 mini sectors over 19 shuffled sectors and 2 shuffled mini FAT sectors, 6 sizes, every start mini sector", ["stream"]),
 h("hcfb.ValidNames", 4, 30, "two streams, symbolic UTF-16 name, empty stream, garbage in the upper size half", ["stream"]),
 h("hcfb.ValidEmbedded", 5, 20, "a stream beside a storage with a stream of the same name, every order of the directory entries over 2 sectors, both sides of their trees", ["stream"]),
 h("hcfb.ValidV4", 8, 30, "4096-byte sectors, 4 sizes, 3 orders, 60 mini sector positions", ["stream"]),
 h("hcfb.ValidDIFAT", 5, 30, "FAT of 3 sectors, two of them listed in a chain of 2 DIFAT sectors", ["stream"]),
])
prop("C05", "All sequences of up to 3 (thorough 4) calls on readers over up to 3 slices of up to 3 bytes, with symbolic bytes, 64-bit symbolic seek offsets and all three whence values, agree with a flat file.", [
 h("hcfb.SliceShort", 10, 60, "2 slices of 0..2 bytes, 3 calls, reads of 0..3 bytes", ["end", "seek-inside", "seek-before", "read-at-end", "read-inside"]),
 h("hcfb.SliceDeep", 10, 600, "3 slices of 0..1 bytes, 3 calls (thorough: 0..2 bytes, 4 calls)", ["end"]),
 h("hcfb.SliceOne", 5, 30, "1 slice of 0..3 bytes, 3 calls", ["end"]),
 h("hcfb.SliceEmpty", 2, 10, "no slice at all, 2 calls", ["end"]),
], ["seeking beyond the end may fail or read as empty"])
prop("C15", "Sequences of resize, put, set and link calls with symbolic positions and values on small sheets agree with a plain grid, cell by cell over the whole iteration.", [
 h("hcommon.Grid2", 8, 60, "2 calls of 6 kinds at symbolic positions of a 3x3 area, 5 starting sizes", ["row"]),
 h("hcommon.Grid3", 25, 200, "3 calls of 6 kinds at symbolic positions of a 2x2 area (thorough 3x3), 5 starting sizes", ["row"]),
 h("hcommon.Grid4", 15, 200, "4 puts and size changes in a 2x2 area (thorough 5 calls, 3x3)", ["row"]),
 h("hcommon.Narrower", 8, 60, "3 (thorough 4) resizes of a full 3x3 sheet to any size up to 4x4", ["resized", "blank"]),
])
prop("C16", "For rows mixing blank, text, merge marker, number and link cells under built-in, custom and unknown formats the four lists describe the same cells.", [
 h("hcommon.Lines", 10, 30, "2x3 sheet, two adjacent cells of 5 kinds and 7 format ids each", ["blank", "string", "float", "integer", "date", "hyperlink"]),
 h("hsimple.TSVPieces", 4, 30, "text files of up to 5 (thorough 6) line ends, tabs and other characters", ["table"]),
 h("hsimple.CSVPieces", 6, 30, "CSV files of up to 5 (thorough 6) quotes, commas, line ends and other characters", ["table"]),
], ["links on cells that never held a value are outside the harness"])
prop("C17", "Scan of every mix of cell kinds (symbolic values) into every mix of destination kinds stores the value or gives the right class of error.", [
 h("hcommon.Scan", 10, 30, "2 cells of 7 kinds with symbolic 64-bit, double, boolean, text and time values, 0 to 3 destinations of 8 kinds, before and after the first Next", ["invalid", "mismatch", "stored"]),
 h("hsimple.ScanText", 3, 10, "two text fields into up to 3 destinations of 6 kinds, before, at and behind the rows", ["invalid", "refused", "stored", "date"]),
 h("hsimple.ScanNumber", 3, 10, "numbers of up to 4 symbolic digits with sign, and broken ones, from text files", ["number", "mismatch"]),
 h("hsimple.ScanWords", 2, 10, "32 spellings of numbers and truth values from text files", ["word"]),
], ["destination pointers are not nil pointers of a documented type", "fewer destinations than fields are accepted, as documented"])
prop("C18", "All 65536 ids against registrations of colliding and free ids, with values of every kind.", [
 h("hcommon.Known", 10, 60, "every 16-bit id after two registrations of 6 ids and 3 codes each", ["builtin", "registered", "unknown"]),
 h("hcommon.Refused", 4, 20, "registration of every 16-bit id with 12 codes", ["registered"]),
 h("hcommon.ApplyAny", 40, 120, "every 16-bit id, 12 registered codes, both date systems; values nil, booleans, 12 integers, 24 floats including infinities, texts of 0..3 symbolic bytes, 4 times, number-like words", ["text", "done"]),
], ["registered custom codes are taken from a list of 12"])
prop("C19", "Symbolic texts and absent values shown through the formatter and through a sheet, under every 16-bit format id.", [
 h("hcommon.CellTexts", 20, 60, "texts of 0..3 symbolic bytes outside the alphabet of number spellings plus listed words, every 16-bit format id, 8 registered codes, through Put and Strings", ["text", "blank"]),
 h("hcommon.ApplyAny", 40, 120, "texts of 0..3 symbolic bytes and nil under every 16-bit format id, formatted directly", ["text", "done"]),
], ["a text that spells a number may be converted by a numeric format in a sheet, as NewCellWithType documents"])
prop("C20", "Symbolic whole numbers under all 16 integer, thousands, currency and accounting formats are parsed back digit by digit.", [
 h("hcommon.WholeTypes", 5, 20, "whole numbers up to 120 of either sign from 11 Go types, 20 format ids and an own code with sections", ["type"]),
 h("hcommon.WholeInt", 8, 30, "all integers of up to 15 digits under the 8 formats without decimals", ["zero", "negative", "grouped"]),
 h("hcommon.WholeFloat", 8, 30, "the same as floats under all 16 formats", ["zero", "negative", "grouped"]),
 h("hcommon.WholeCell", 8, 30, "all integers of up to 9 digits as integer or float through a sheet", ["zero", "negative", "grouped"]),
 h("hcommon.WholeCustom", 8, 30, "all integers of up to 9 digits under 5 custom codes", ["zero", "negative", "grouped"]),
], ["decimal texts of symbolic integers are digit variables tied to the number by one multiplication per text"])
prop("C21", "Every serial day of both systems with every second, every minute in three spellings and every pair of milliseconds of one day.", [
 h("hcommon.Days", 6, 30, "all days 61..2958465 (1900) and 0..2957003 (1904)", ["day"]),
 h("hcommon.Clock", 6, 30, "all those days with every second of the day", ["clock"]),
 h("hcommon.ClockMinutes", 8, 30, "all those days with every minute, as n+m/1440, (n*1440+m)/1440 and n+m*(1/1440)", ["clock"]),
 h("hcommon.Order", 40, 120, "all those days with two ordered milliseconds of the day, and the next day", ["order"]),
 h("hcommon.OrderEarly", 10, 20, "the first 62 days of the 1900 system at 5 times of the day", ["order"]),
 h("hcommon.Calendar", 20, 100, "every day of 14 years (thorough: of 1900 to 2199) against a plain calendar", ["date"]),
], ["IEEE rounding of sums and quotients of integers is bounded by an affine error form instead of bit-blasting where the rounded result is certain"])
prop("C23", "Cells made from symbolic values of every Go type, and coerced to every format type, keep their value.", [
 h("hcommon.NewCellInts", 6, 20, "all values of all ten integer types", ["int", "big"]),
 h("hcommon.NewCellOthers", 6, 20, "all floats, booleans, texts of 0..3 bytes, times, nil, other types", ["value", "blank"]),
 h("hcommon.Coerce", 40, 120, "all 64-bit integers, all doubles, booleans, texts and times coerced to every cell type", ["checked", "truncated", "kept", "text"]),
], ["integers become the nearest float under a float format"])
prop("C24", "Equal and Less of two cells of every kind with symbolic values obey the ordering laws.", [
 h("hcommon.CompareNumbers", 6, 30, "all pairs of 64-bit integers, doubles and booleans", ["compared"]),
 h("hcommon.CompareKinds", 6, 30, "all pairs of cell kinds", ["compared"]),
 h("hcommon.CompareTexts", 6, 30, "texts of 0..3 bytes against texts and numbers", []),
], ["NaN is left aside; an integer and a float are compared as floats"])
prop("C02", "Every path of opening a workbook and reading all its sheets ends without panic, endless loop or oversized allocation, over workbook streams with symbolic record types, sizes, counts, positions and payload bytes.", [
 h("hxls.CrashType", 25, 60, "one record of any 16-bit type with up to 16 symbolic bytes, in the globals or in the sheet; SST up to 8 bytes, dimensions and merges by their own harnesses; the first two payload words below 3", ["opened", "refused", "sheet-refused", "sheet-read"]),
 h("hxls.CrashSize", 8, 30, "21 record types with every 16-bit declared size and 0 to 20 bytes present, stream complete or cut", ["opened", "refused"]),
 h("hxls.CrashCut", 15, 40, "a workbook of all record types cut after any byte", ["opened", "refused", "sheet-refused"]),
 h("hxls.CrashByte", 25, 400, "the same workbook with any one byte replaced by any value (thorough: two neighbours)", ["opened", "refused", "sheet-refused"]),
 h("hxls.CrashPlaces", 15, 60, "cells of 6 record kinds at 4 rows and 6 columns up to 65535, with or without dimensions of 9 kinds, symbolic styles and values", ["opened", "sheet-read"], steps=12000000),
 h("hxls.CrashDims", 5, 20, "declared dimensions: 0..5 by 0..1, up to and beyond the 65536 rows and 256 columns of the format", ["opened", "sheet-read"], steps=12000000),
 h("hxls.CrashIndex", 5, 20, "every shared string and style index over small tables", ["sheet-read", "sheet-refused"]),
 h("hxls.CrashTable", 15, 200, "a shared string table of up to 13 (thorough 18) bytes over up to 3 records, any counts, small or large sizes", ["opened", "refused"]),
 h("hxls.CrashResult", 3, 10, "formula results of any 8 bytes", ["sheet-read"]),
 h("hxls.CrashString", 10, 30, "string results of 10 lengths, any flags, over up to 3 short records", ["sheet-read", "sheet-refused", "refused"]),
 h("hxls.CrashLink", 30, 200, "hyperlinks with any 32-bit flags and up to 3 (thorough 4) words, one of them any, cut anywhere", ["sheet-read"]),
 h("hxls.CrashLinkShort", 3, 10, "hyperlink records cut within their fixed part", ["sheet-read", "refused"]),
 h("hxls.CrashMoniker", 5, 20, "URL and file targets with any 32-bit lengths over 0..40 bytes", ["sheet-read"]),
 h("hxls.CrashRanges", 6, 30, "merged and linked ranges with corners in any order inside and outside of the sheet, wrong counts and sizes", ["sheet-read", "sheet-refused"], steps=12000000),
 h("hxls.CrashStructure", 15, 100, "all sequences of 4 (thorough 5) of 8 section records with any 32-bit sheet position", ["opened", "refused", "sheet-refused"]),
 h("hxls.CrashFilePass", 3, 10, "encryption records of 10 sizes with 6 symbolic bytes, and any verifier", ["refused"]),
 h("hxls.CrashEncrypted", 50, 200, "an encrypted stream with a record of any type and size, cut anywhere", ["opened", "refused"]),
 h("hxls.CrashEncryptedCut", 8, 30, "an encrypted workbook cut after any byte or with any other byte outside of salt and verifier", ["opened", "refused", "sheet-refused"]),
], ["ranges over all 65536 rows of a sheet without that many rows are left out (they take the reader seconds)", "memory may grow to the largest sheet the format allows"])
prop("C06", "An encrypted workbook is built with an independent RC4 and compared with its plain version over symbolic contents.", [
 h("hcrypto.Workbook", 12, 40, "a workbook of shared strings, numbers, and a padding record of sizes that put every byte of the cells on a 1024-byte block boundary; symbolic text and numbers", ["read"]),
 h("hcrypto.Long", 8, 20, "258 KiB (more than 256 blocks), symbolic bytes around the last blocks", ["decrypted"], steps=400000000),
 h("hcrypto.WrongPassword", 3, 10, "workbooks encrypted with another password", ["refused"]),
 h("hcrypto.Verifier", 3, 10, "every 16-byte verifier hash", ["verified"]),
 h("hcrypto.OtherPassword", 3, 10, "headers for other passwords; headers with any byte changed or cut at any length", ["refused"]),
], ["salts and passwords are concrete: MD5 and RC4 key schedules of symbolic data are out of reach of the solver", "MD5 is the standard library's"])
prop("C07", "The decrypted bytes of symbolic data in all splits equal an independent block-wise RC4.", [
 h("hcrypto.Splits", 8, 100, "3000 bytes with symbolic bytes in up to 3 (thorough 4) writes of sizes around the 1024-byte blocks", ["blocks", "decrypted"]),
 h("hcrypto.Small", 30, 100, "all splits of up to 7 writes of 1 to 3 bytes around a block boundary", ["decrypted"]),
 h("hcrypto.Reset", 6, 20, "resets between writes of sizes around the blocks", ["reset"]),
 h("hcrypto.Long", 8, 20, "258 KiB (more than 256 blocks), symbolic bytes around the last blocks", ["decrypted"], steps=400000000),
], ["the key is concrete, the data is symbolic"])
prop("C08", "Shared string tables cut anywhere into continuation records are decoded and compared with their characters.", [
 h("hxls.Table", 45, 200, "2 strings of up to 3 symbolic characters of either width, with 0..2 runs and 0..6 phonetic bytes; the first one cut at any place, any width behind the cut", ["strings"]),
 h("hxls.TableLast", 25, 100, "the same with the last string cut", ["strings"]),
 h("hxls.TableMany", 40, 100, "a string cut into up to 4 records of either width, and one behind it", ["strings"]),
 h("hxls.TableLong", 12, 40, "a string of 9000 to 32767 characters over several full records, symbolic characters around the cuts", ["strings"]),
], ["characters come from one symbolic code unit each (no surrogate pairs)"])
prop("C09", "Sheets of one or two cell records with symbolic kinds, positions and values are compared cell by cell.", [
 h("hxls.CellKinds", 5, 20, "one record of 6 kinds in any of 16384 rows of the first column, values and styles symbolic", ["boolean", "float", "integer", "string"]),
 h("hxls.CellLast", 3, 10, "a record in the last rows, with and without dimensions", ["string"]),
 h("hxls.CellPairs", 20, 60, "two records of any kind at any two positions of a 3x3 area in any order", ["boolean", "float", "integer", "string"]),
 h("hxls.CellFar", 4, 10, "cells in the last columns with declared dimensions or without", ["cell"]),
 h("hxls.CellRow", 4, 10, "a row of 2 to 256 numbers in one or two packed records or single ones", ["row"]),
])
prop("C10", "All 2^32 packed numbers are decoded by every reader and compared with the format's definition.", [
 h("hxls.RKValue", 12, 40, "all 2^32 packed numbers through IsInteger, Int and Float64", ["integer", "float"]),
 h("hxls.RKText", 15, 40, "the display of all integers by magnitude and a list of floats and hundredths", ["integer", "float"]),
 h("hxls.RKReaders", 4, 10, "all 2^32 packed numbers in single and in multi-number records", ["read"]),
], ["the text of fractional values is compared for a list of values"])
prop("C11", "Workbooks with symbolic visibility, kinds, names and section order list and deliver exactly their sheets.", [
 h("hxls.Sheets", 4, 20, "3 sheets, every visibility and kind, sections in any order, one with an embedded chart or nested section", ["visible", "hidden"]),
 h("hxls.Names", 6, 20, "2 sheets with symbolic names of 0 to 2 characters of either width, unknown names", ["unknown"]),
])
prop("C12", "Formula results of every kind, with texts cut at every place, are compared with their contents.", [
 h("hxls.Formulas", 25, 80, "all doubles, booleans, error codes and texts of up to 3 symbolic characters cut anywhere into up to 3 records of either width", ["boolean", "float", "string"]),
 h("hxls.FormulaPairs", 12, 40, "two formulas of any kind in either order", ["read", "string"]),
 h("hxls.FormulaLong", 10, 30, "texts of 9000 to 32767 characters over several records", ["string"]),
])
prop("C14", "Hyperlinks of xls records with every combination of flags and texts, and of xlsx sheets, are compared with the shown text and URL.", [
 h("hxls.Links", 20, 60, "URL, file, text and location targets with symbolic characters, with or without display text, frame, location; on blank, text and number cells", ["shown"]),
 h("hxls.LinkRange", 4, 20, "links on ranges with and without cell contents", ["shown"]),
 h("hxls.LinkNumber", 3, 10, "links without display text on number cells", ["shown"]),
 h("hxlsx.Links", 15, 60, "xlsx: links on cells of every kind with symbolic characters, whole columns and ranges, with and without targets", ["links"]),
 h("hxls.LinkAny", 3, 10, "links without display text on cells of 7 kinds and 8 styles against the cell without the link", ["shown"]),
 h("hxlsx.LinkAny", 10, 20, "xlsx: the same for texts, formats and scanned values", ["linked"]),
 h("hxlsx.LinkMerged", 3, 10, "xlsx: a link on a merged range", ["shown"]),
], ["8-bit file paths are ASCII (the code page of others is not known)"])
prop("C13", "Merged ranges of xls and xlsx sheets over symbolic positions are compared marker by marker.", [
 h("hxls.Merged", 4, 20, "one range anywhere in a 4x4 sheet with symbolic surroundings", ["shown"]),
 h("hxls.MergedTwo", 15, 40, "two disjoint ranges in one or two records", ["shown"]),
 h("hxls.MergedFull", 3, 10, "ranges over full rows and columns", ["shown"]),
 h("hxls.MergedMany", 8, 30, "one record of 200 to 1027 ranges", ["shown"], steps=20000000),
 h("hxlsx.Merged", 4, 20, "xlsx: one merged range anywhere in a small sheet, with cells in and around it", ["shown"]),
 h("hxlsx.MergedTwo", 6, 30, "xlsx: two disjoint merged ranges", ["shown"]),
 h("hxlsx.MergedAlone", 3, 10, "xlsx: a merged range outside of all cells", ["shown"]),
])
prop("C22", "Two workbooks opened together, each with its own date system, deliver dates counted from their own epoch; xls and xlsx.", [
 h("hxls.DateSystem", 60, 60, "two xls workbooks with 1904, 1900 or no declaration, all days, before or after the first cell", ["date"]),
 h("hxls.DateText", 3, 10, "shown text of a list of days in both systems", ["date"]),
 h("hxls.DateTwice", 12, 30, "2 or 3 declarations in one xls workbook, all days", ["date"]),
 h("hcommon.Modes", 3, 10, "up to 3 choices of the date system", ["date"]),
 h("hxlsx.DateSystem", 15, 60, "two xlsx workbooks with every spelling of the declaration, all days", ["date"]),
])
prop("C27", "Cells with every style index over tables of style entries with any format id.", [
 h("hxls.Styles", 10, 40, "3 style entries with any 16-bit format, custom formats before or after them, every 16-bit style index", ["styled", "unstyled", "named"]),
 h("hxlsx.Styles", 60, 120, "xlsx: tables of base and cell styles with any override flags, format ids and indexes", ["styled"]),
 h("hxlsx.NoStyle", 3, 10, "xlsx: cells without style, out-of-range styles, no style part", ["general"]),
 h("hxlsx.Format", 25, 60, "xlsx: every 16-bit format id, custom or not", ["format"]),
])
prop("C31", "All interleavings of fetching, advancing, opening and closing over two workbooks and sheets.", [
 h("hxls.Iterators", 20, 80, "7 calls over two iterators of the same or other sheets of an xls workbook", ["end"]),
 h("hxls.Workbooks", 15, 60, "5 calls opening, reading and closing two xls workbooks", ["first", "second"]),
 h("hxlsx.Iterators", 15, 60, "calls over two iterators of the same or other sheets of an xlsx workbook", ["end"]),
 h("hxlsx.Workbooks", 6, 30, "opening, reading and closing two xlsx workbooks", ["first", "second"]),
 h("hsimple.Iterators", 4, 20, "6 calls over up to 3 iterators of two text files, with changes of the returned lists", ["end"]),
 h("hcommon.RawCopy", 3, 10, "changes of the cells and lists that a row of a 2x3 sheet returned", ["kept"]),
])
prop("C25", "Every column name and symbolic row numbers place a marked cell, and the whole sheet is compared around it.", [
 h("hxlsx.Columns", 8, 30, "columns A to ZZ (thorough: A to XFD, symbolic letters) in a symbolic low row, with or without dimension", ["cell"]),
 h("hxlsx.ColumnsFar", 4, 30, "columns AAA to XFD in steps (thorough: all), names beyond XFD", ["beyond", "cell"]),
 h("hxlsx.Rows", 10, 40, "rows of up to 5 (thorough 6) digits, and beyond the last row", ["beyond", "cell"], steps=20000000),
 h("hxlsx.Pairs", 4, 20, "two cells at any two places of a small area in any order", ["pair"]),
 h("hxlsx.Declared", 3, 10, "declared dimensions of every small size with cells in and outside of them", ["declared"]),
 h("hxlsx.Follow", 12, 60, "rows without an index and cells without a reference, in 1 or 2 rows of up to 2 (thorough 3) cells, with gaps and empty cells", ["follow"]),
 h("hxlsx.FollowEnd", 2, 10, "nothing follows the last column and the last row", ["end"]),
], ["sheets of more than 2^27 cells are refused"])
prop("C26", "Cells of every type over XML layouts with symbolic characters are compared with their value.", [
 h("hxlsx.Texts", 6, 30, "shared, inline and formula texts of symbolic characters in pieces, entities, CDATA, comments and layout", ["text"]),
 h("hxlsx.Runs", 6, 30, "strings of several runs with phonetic hints, formulas and layout around them", ["runs"]),
 h("hxlsx.Values", 5, 20, "numbers, booleans, errors and blanks with symbolic digits", ["blank", "boolean", "number", "string"]),
 h("hxlsx.Index", 3, 10, "every index into a small shared string table", ["index"]),
 h("hxlsx.Escapes", 15, 40, "texts with an escaped character of any code below 0x100, around 0x1000 and around the surrogates, escaped underlines and texts that resemble an escape", ["escaped"]),
], ["cells of type d (ISO dates) show their text"])
prop("C32", "A fault or break at every place of every part of a package is an error, or all rows are there.", [
 h("hxlsx.Faults", 3, 10, "every part cannot be opened, ends early or has a bad checksum", []),
 h("hxlsx.Cut", 20, 80, "every part cut after any byte", ["cut"]),
 h("hxlsx.CutFault", 25, 100, "every part fails to read after any byte", []),
 h("hxlsx.Breaks", 45, 100, "any byte of every part replaced so that the XML breaks", ["broken"]),
 h("hxlsx.Lost", 3, 10, "a part that the package names is missing", ["lost"]),
], ["archive/zip is modelled: parts with their data and a read fault"])
prop("C03", "Every path of opening a package and reading all its sheets ends without panic, endless loop or oversized allocation, over packages with strange or symbolic attributes, texts, indexes, parts and relationships.", [
 h("hxlsx.CrashAttr", 6, 60, "34 strange values in each attribute and text of a sheet (thorough: in two at once), 6 cell types", ["opened", "sheet-read", "sheet-refused"]),
 h("hxlsx.CrashRef", 8, 60, "any reference of 2 (thorough 3) symbolic ASCII characters in a cell, dimension, merge and hyperlink, up to 2 digits", ["opened", "sheet-read"], steps=20000000),
 h("hxlsx.CrashHuge", 3, 10, "cells, dimensions and ranges at the far end of the largest sheet", ["opened"]),
 h("hxlsx.CrashStyles", 12, 60, "34 strange counts, ids, base styles and cell styles, 7 format codes, 5 orders of the style elements", ["opened", "sheet-read"]),
 h("hxlsx.CrashParts", 4, 20, "each part missing, doubled, exchanged with any other or replaced by 22 texts", ["opened", "refused"]),
 h("hxlsx.CrashRels", 4, 20, "12 strange targets and 6 types of relationships", ["opened", "refused"]),
 h("hxlsx.CrashByte", 60, 300, "every fourth (thorough: any) byte of any part replaced by any ASCII character", ["opened", "refused", "sheet-read", "sheet-refused"], steps=20000000),
], ["archive/zip is modelled: the zip container itself is not damaged", "memory may grow to a sheet of 2^27 cells"])
prop("C28", "Up to three openers with any 8-bit priorities and outcomes are registered around the built-in formats, and the calls of Open are compared with the order of priorities.", [
 h("hroot.Dispatch", 12, 60, "1 or 3 (thorough 1 to 3) openers with any priority from -128 to 127 and 5 outcomes, on a file that all built-in formats decline", ["accepted", "error", "unknown"]),
 h("hroot.Again", 3, 10, "two registrations with any priorities between three calls of Open", ["again"]),
], ["formats of equal priority may be tried in any order"])
prop("C29", "Text files of symbolic bytes are compared with their lines and the pieces between tabs.", [
 h("hsimple.TSVBytes", 3, 60, "every file of up to 4 (thorough 6) bytes", ["table"]),
 h("hsimple.TSVPieces", 4, 30, "up to 5 (thorough 6) line ends, tabs and other characters in any order", ["table"]),
 h("hsimple.TSVLong", 30, 60, "a line of 4093 to 200003 bytes behind up to 4000 bytes, around all buffer sizes", ["table", "long"]),
 h("hsimple.Shapes", 6, 20, "up to 300 lines of three shapes", ["table", "declined"]),
 h("hsimple.Absent", 1, 5, "a missing file", ["missing"]),
], ["reads of the file deliver its bytes or fail when it is opened"])
prop("C30", "CSV files of symbolic bytes are compared with an independent reader of the CSV syntax.", [
 h("hsimple.CSVBytes", 4, 60, "every file of up to 4 (thorough 5) bytes", ["table", "broken"]),
 h("hsimple.CSVPieces", 6, 30, "up to 5 (thorough 6) quotes, commas, line ends and other characters in any order", ["table", "broken"]),
 h("hsimple.CSVQuoted", 45, 100, "one or two records of up to 3 fields of 6 kinds with symbolic characters", ["table"]),
 h("hsimple.CSVLong", 30, 60, "fields of 4093 to 200003 bytes, quoted or not", ["long"]),
 h("hsimple.Shapes", 6, 20, "up to 300 records of three shapes", ["table", "declined"]),
])
prop("C33", "Errors of all nestings of up to three levels, with one member of each kind at any place, are recognised by the standard tests.", [
 h("hroot.Wrap", 4, 60, "1 to 3 members on each of up to 3 levels, a sentinel, a value type, a pointer type or a wrapping error at any place, wrapped again up to twice", ["wrapped"]),
], ["nil is no error to wrap"])

prop("C35", "Format codes of symbolic characters are registered and applied to values of every kind; codes put together from fields, digit places and symbolic literals are compared with what they spell.", [
 h("hcommon.CodeBytes", 10, 200, "every code of up to 2 (thorough 3) ASCII characters, 17 values of every kind", ["text", "done"]),
 h("hcommon.CodeSheet", 30, 200, "14 codes with 2 (thorough 3) ASCII characters inserted, through a sheet", ["done"]),
 h("hcommon.DateCode", 120, 250, "1 or 2 of 15 date and time fields in any order, a literal of 4 kinds at any place; 2 (thorough 3) days with every minute or second, as time or serial", ["date", "cell"]),
 h("hcommon.TimeCode", 90, 120, "11 whole date and time codes with symbolic separators, the same times", ["date", "cell"]),
 h("hcommon.NumberCode", 20, 60, "12 digit place codes with a literal before or after, all whole numbers of up to 5 digits as integer or float, formatted directly and through a sheet", ["number", "cell"]),
 h("hcommon.DecimalCode", 6, 20, "6 decimal, percent and exponent codes with literals, 22 floats", ["decimal"]),
 h("hcommon.SectionCode", 4, 20, "2 to 4 sections with a symbolic literal in one", ["done", "zero"]),
], ["elapsed time fields ([h]) show the time of day; trailing commas do not scale; fraction codes are covered by C34's reason"])

prop("C37", "The harnesses of the crash, fault and table checks are run again with a count of the open files after every failed open and every close.", [
 h("hcfb.ReleaseHeader", 8, 60, "compound files with symbolic headers as in CrashHeader", ["watched"]),
 h("hcfb.ReleaseShort", 6, 30, "compound files cut at 25 lengths", ["watched"]),
 h("hcfb.ReleaseDIFAT", 6, 30, "compound files with symbolic DIFAT", ["watched"]),
 h("hxls.ReleaseCut", 20, 60, "an xls workbook cut after any byte", ["watched"]),
 h("hxls.ReleaseSize", 12, 40, "an xls workbook with records of any declared size", ["watched"]),
 h("hxls.ReleaseFilePass", 6, 20, "xls workbooks with broken encryption records", ["watched"]),
 h("hxlsx.ReleaseFaults", 6, 20, "xlsx packages with a fault in any part", ["watched"]),
 h("hxlsx.ReleaseCut", 30, 100, "xlsx packages with any part cut after any byte", ["watched"]),
 h("hxlsx.ReleaseBreaks", 60, 120, "xlsx packages with any part broken at any byte", ["watched"]),
 h("hxlsx.ReleaseParts", 8, 30, "xlsx packages with parts missing, doubled, exchanged or replaced", ["watched"]),
 h("hxlsx.ReleaseRels", 8, 30, "xlsx packages with strange relationships", ["watched"]),
 h("hxlsx.ReleaseOther", 6, 20, "files that are no zip archives", ["watched"]),
 h("hsimple.ReleaseCSV", 8, 60, "every CSV file of up to 4 bytes", ["watched"]),
 h("hsimple.ReleaseShapes", 30, 60, "text files of three shapes, declined or not", ["watched"]),
 h("hsimple.ReleaseLong", 20, 60, "text files with a line that is longer than a buffer", ["watched"]),
], ["archive/zip keeps no handles of its own (the part readers it hands out are modelled)"])

prop("C34", "Numbers over small symbolic ranges are tabulated, so that the continued fraction search is decided for all of them; the shown text is read back and compared as a rational.", [
 h("hcommon.FracDecimals", 20, 60, "all numbers w + k/1000 with 0 <= k < 1000, 4 whole parts, both signs, 5 formats", ["fraction", "whole"]),
 h("hcommon.FracQuotients", 30, 120, "all quotients a/b with 0 <= a < 1000, b <= 20 (thorough 60), both signs, 5 formats", ["exact", "fraction", "whole"]),
 h("hcommon.FracTiny", 3, 10, "k * 10^-e and 1 - k * 10^-e for k <= 100 and 6 exponents", ["fraction", "whole"]),
 h("hcommon.FracLarge", 15, 40, "k * 2^e for k < 5000 and 6 exponents up to 200", ["whole"]),
], ["numbers outside of these families", "a function of one variable of at most 16384 values is kept as a table of its values, computed by the engine; the solver decides over the partition of the range"])
prop("C38", "Numbers over symbolic ranges are tabulated; the shown text is read back digit by digit and compared with the number as integers.", [
 h("hcommon.Decimals", 15, 60, "all numbers w + k/1000 with 0 <= k < 10000, 5 whole parts, both signs, 26 formats", ["negative", "rounded", "zero"]),
 h("hcommon.DecimalCells", 6, 20, "the same through a sheet, k < 2000", ["negative", "rounded", "zero"]),
 h("hcommon.Exponents", 6, 20, "k * 10^e for 1 <= k < 5000 and 4 exponents, both signs, 4 formats", ["rounded"]),
], ["ties may be rounded either way", "numbers that round to zero may lose their sign", "an integer format truncates a float in a sheet by design, so whole formats are applied directly", "a function of one variable of at most 16384 values is kept as a table of its values"])
prop("C39", "Every built-in date and time format is applied to symbolic times and compared with the fields of its code.", [
 h("hcommon.BuiltinDates", 60, 120, "41 built-in formats, 3 days, 4 hours, every minute or second, as time or serial, directly and through a sheet", ["cell", "date"]),
], ["elapsed hours show the hour of the day", "format 81 (Buddhist years) is left out", "a single h of the 24 hour clock may be padded"])

prop("C36", "The source of the command is rewritten on every run: operations on channels, locks, wait groups and pools and go statements become calls of a scheduler (harness/vrt/sched.go) that picks the goroutine to go on by a symbolic choice; everything else is the code as it is. The real code then runs in the harness against a model of the files, and the same rewritten code is run natively for every counterexample.", [
 h("htool.ToolSchedules", 60, 300, "2 (thorough 3) files with a symbolic cell; 1 to 4 workers; another goroutine may go on at every operation on a channel, lock, wait group or pool and in every round of a loop, with up to 2 deviations from taking turns (1 with other than 2 workers; thorough 2)", ["output", "end"]),
 h("htool.ToolText", 40, 200, "a workbook with two texts of 2 (thorough 4) symbolic ASCII characters, 8 combinations of the options", ["output", "end"]),
 h("htool.ToolGrid", 30, 60, "a sheet of up to 3 x 2 cells, each of up to 4 contents or missing, 8 combinations of the options", ["output", "end"]),
 h("htool.ToolFiles", 60, 300, "0 to 3 files of 6 kinds each (same base name in another folder, sheets with similar names and an empty one, missing, unreadable, a broken sheet between others, listed twice), taking turns (thorough 1 deviation), 1 to 4 processors, pretending or not, with a result file from before or not", ["output", "end"]),
], ["goroutines switch only at operations of concurrency and in rounds of loops", "contents of sheets are C01 to C35's matter", "names of sheets and files without tabs and line ends", "profiles and log files are not written", "which output file holds which sheet is not checked, only that each has one of its own"])
prop("C40", "IsEmpty is asked before and after reading and compared with the kinds of the cells written, and with the types shown.", [
 h("hcommon.Empty", 30, 60, "3 operations of 7 kinds (growth, put of 5 kinds) at 3 x 3 places", ["empty", "values"]),
 h("hxls.Empty", 6, 20, "no cell, a blank record or a cell of 7 kinds at 5 places, 6 declared sizes", ["empty", "values"]),
 h("hxlsx.Empty", 8, 20, "11 kinds of rows and cells at 5 places, 5 declared sizes", ["empty", "values"]),
 h("hsimple.TSVBytes", 20, 100, "every TSV file of up to 4 (thorough 6) bytes", ["table"]),
], ["cells that were written an empty text hold no value", "merge markers and links are left out"])
prop("C41", "The source of the command is taken into the harness as it is (like that of C36) and run on lists of files against a model of the files and of the standard streams.", [
 h("hgrater.ToolPrint", 20, 60, "1 to 3 files of 6 kinds each (a table, a workbook with an empty and a hidden sheet, missing, unreadable, a broken sheet between others, listed twice), each with a symbolic character, with and without -v", ["end", "errors"]),
], ["contents of sheets are C01 to C35's matter", "the wording of errors is free"])
prop("C42", "Packages are built with every layout and their sheets compared with the part each name leads to.", [
 h("hxlsx.Places", 20, 60, "3 folders, 2 names of the workbook, absolute or relative, 5 ways to refer to each part (next to it, in, above and beside the folder, absolute), 2 orders of the parts", ["places"]),
 h("hxlsx.Orders", 60, 300, "3 sheets in every order, with every order of relationships and of ids; 4 ways to write a sheet, with a chart sheet at one of 4 places (thorough: every pair); links with the same id in each sheet", ["orders", "chart"]),
 h("hxlsx.Names", 20, 60, "2 sheet names of 0 to 2 symbolic ASCII characters or with entities and non-ASCII text; any other name of up to 2 characters", ["names"]),
], ["one relationship of a kind for styles and shared strings", "targets are not percent-encoded and absolute ones have no dot segments", "hidden sheets are listed like the others"])
prop("C43", "Symbolic execution records every write to memory that existed before the read began (package variables and what they lead to). Code that never writes such memory can run any number of times at once, in any interleaving; a write is replayed by two goroutines under the race detector.", [
 h("hxls.ParKinds", 10, 30, "the workbooks of CellKinds: every cell record", ["parallel"]),
 h("hxls.ParFormulas", 25, 60, "the workbooks of FormulaPairs: formula records and their string results", ["parallel"]),
 h("hxls.ParStyles", 20, 60, "the workbooks of Styles: number formats and style entries", ["parallel"]),
 h("hxls.ParMerged", 8, 30, "the workbooks of Merged", ["parallel"]),
 h("hxls.ParLinks", 8, 30, "the workbooks of LinkRange", ["parallel"]),
 h("hxls.ParLink", 4, 10, "the workbooks of LinkNumber", ["parallel"]),
 h("hxls.ParDates", 4, 10, "the workbooks of DateText", ["parallel"]),
 h("hxls.ParNames", 12, 40, "the workbooks of Names: sheet names", ["parallel"]),
 h("hxls.ParCut", 20, 60, "xls workbooks cut after any byte", ["parallel"]),
 h("hxls.ParLinkCut", 4, 10, "damaged links", ["parallel"]),
 h("hxls.ParBroken", 4, 10, "broken encryption records", ["parallel"]),
 h("hxls.ParErrors", 4, 10, "boolean and error cells and formula results of any code", ["parallel"]),
 h("hxls.ParResult", 4, 10, "the workbooks of CrashResult: formula results of any 8 bytes", ["parallel"]),
 h("hxls.ParIndex", 5, 20, "the workbooks of CrashIndex: any shared string and style index", ["parallel"]),
 h("hxls.ParByte", 40, 400, "the workbooks of CrashByte: any byte replaced by any value", ["parallel"]),
 h("hxls.ParTable", 60, 120, "the workbooks of TableLast: shared strings split over records", ["parallel"], tier="thorough"),
 h("hcrypto.ParWorkbook", 25, 60, "encrypted workbooks", ["parallel"]),
 h("hcrypto.ParWrong", 4, 10, "workbooks with another password", ["parallel"]),
 h("hxlsx.ParTexts", 20, 60, "the packages of Texts: text cells in all layouts", ["parallel"]),
 h("hxlsx.ParRuns", 20, 60, "the packages of Runs: runs of texts", ["parallel"]),
 h("hxlsx.ParValues", 20, 60, "the packages of Values: cells of all kinds", ["parallel"]),
 h("hxlsx.ParMerged", 15, 40, "the packages of Merged", ["parallel"]),
 h("hxlsx.ParLinks", 8, 30, "the packages of LinkMerged", ["parallel"]),
 h("hxlsx.ParPairs", 15, 40, "the packages of Pairs: two cells anywhere", ["parallel"]),
 h("hxlsx.ParParts", 12, 40, "packages with parts missing, doubled, exchanged or replaced", ["parallel"]),
 h("hxlsx.ParRels", 15, 40, "packages with strange relationships", ["parallel"]),
 h("hxlsx.ParFormat", 60, 120, "the packages of Format: number formats", ["parallel"], tier="thorough"),
 h("hxlsx.ParNames", 40, 80, "the packages of Names: sheet names", ["parallel"], tier="thorough"),
 h("hsimple.ParTSV", 8, 30, "every TSV file of up to 4 (thorough 6) bytes", ["parallel"]),
 h("hsimple.ParCSV", 15, 120, "every CSV file of up to 4 bytes", ["parallel"]),
 h("hcommon.ParFormats", 8, 30, "every format id, 11 values and 12 custom codes, applied and shown in a sheet", ["parallel"]),
 h("hcommon.ParCodes", 12, 30, "custom codes of up to 3 of 16 pieces, 4 values", ["parallel"]),
], ["writes of the standard library to its own variables are its own matter", "goroutines that share one source, collection or formatter must synchronise themselves", "Debug and Register are set up before"])
prop("C44", "The same table is written in both formats by two encoders of the harness, both files are read by the real code, and everything that the two readers deliver is compared.", [
 h("hcross.Numbers", 20, 60, "5 (thorough 14) of 14 numbers, direct or as results of formulas, under 38 formats (28 built-in ones, 10 defined by the workbook), both date systems", ["same"]),
 h("hcross.Cells", 10, 60, "a cell (thorough two) of 8 kinds: booleans, 7 errors, texts with any character of the basic plane up to U+D7FF, blanks, each direct or the result of a formula, under 5 formats", ["same"]),
 h("hcross.Gaps", 6, 20, "2 x 3 (thorough 3 x 3) cells, any of them missing", ["same"]),
 h("hcross.Merges", 6, 20, "every merged range of a sheet of 3 x 3 cells, its first cell empty or not", ["same"]),
 h("hcross.Links", 8, 20, "a web link on every range of a sheet of 2 x 2 cells with contents of all kinds", ["same"]),
 h("hcross.Sheets", 6, 20, "2 or 3 sheets with 3 names, in both orders in the file", ["sheets"]),
], ["the binary reader adds the address of a link to the text of its first cell, the other one does not", "errors of binary workbooks have no number format", "integers of packed numbers are C10's matter: numbers are stored as doubles"])
prop("C45", "Files of all four formats are opened through the registry under any name, and compared with what their own reader delivers; the readers of the other formats are called too.", [
 h("hroot.Workbooks", 8, 20, "workbooks of both formats with 1 or 2 sheets and a symbolic text under 6 names", ["workbook"]),
 h("hroot.Texts", 20, 200, "every ASCII text of up to 4 (thorough 6) bytes under 6 names", ["csv", "tsv"]),
 h("hroot.Tables", 10, 30, "tables of 1 to 3 columns and 9 numbers of rows up to 30, with tabs, commas or neither, both line ends", ["csv", "tsv"]),
], ["a text with tabs is tab-separated; one with commas and without tabs is comma-separated", "malformed comma-separated files may be refused or not", "lines of up to 64 KB"])
prop("C46", "The files of the other checks are read without and with debug output and everything delivered is compared; the arguments of messages are computed and their String methods run.", [
 h("hxls.DebugKinds", 8, 30, "the workbooks of CellKinds: every cell record", ["debug"]),
 h("hxls.DebugRecords", 10, 200, "a record of any type below 256 (thorough 4352) among the globals, the cells or in an embedded section", ["debug"]),
 h("hxls.DebugStyles", 25, 60, "the workbooks of Styles", ["debug"]),
 h("hxls.DebugMerged", 8, 30, "the workbooks of Merged", ["debug"]),
 h("hxls.DebugLinks", 5, 20, "the workbooks of LinkRange", ["debug"]),
 h("hxls.DebugNames", 12, 40, "the workbooks of Names", ["debug"]),
 h("hxls.DebugFormulas", 40, 60, "the workbooks of FormulaPairs", ["debug"], tier="thorough"),
 h("hxls.DebugErrors", 4, 10, "boolean and error cells and formula results of any code", ["debug"]),
 h("hxls.DebugResult", 4, 10, "formula results of any 8 bytes", ["debug"]),
 h("hxls.DebugIndex", 5, 20, "any shared string and style index", ["debug"]),
 h("hxls.DebugCut", 15, 60, "xls workbooks cut after any byte", ["debug"]),
 h("hxls.DebugByte", 40, 400, "xls workbooks with any byte replaced by any value", ["debug"]),
 h("hxls.DebugBroken", 4, 10, "broken encryption records", ["debug"]),
 h("hxlsx.Wrapped", 40, 80, "an unknown element around, before or behind any element of any part", ["debug", "opened", "sheet-read"]),
 h("hcrypto.DebugWorkbook", 25, 60, "encrypted workbooks", ["debug"]),
 h("hxlsx.DebugTexts", 20, 60, "the packages of Texts", ["debug"]),
 h("hxlsx.DebugValues", 20, 60, "the packages of Values", ["debug"]),
 h("hxlsx.DebugFormat", 10, 40, "the packages of Format", ["debug"]),
 h("hxlsx.DebugLinks", 8, 30, "the packages of LinkMerged", ["debug"]),
 h("hxlsx.DebugParts", 10, 40, "packages without one of their parts or with another in its place", ["debug"]),
 h("hxlsx.DebugRels", 12, 40, "packages with damaged relationships", ["debug"]),
 h("hxlsx.DebugAttr", 25, 60, "packages with odd attributes", ["debug"]),
 h("hxlsx.DebugByte", 90, 300, "packages with any byte of a part replaced", ["debug"], tier="thorough"),
 h("hsimple.DebugTSV", 20, 60, "TSV files of up to 4 (thorough 6) bytes", ["debug"]),
], ["the text of messages is not compared, and only String methods are run to make it"])
prop("C47", "Numbers are given to the formatter and to cells of a sheet, under General, text, unknown ids and own codes with General in them.", [
 h("hcommon.GeneralInts", 25, 60, "every whole number of up to 18 digits, 6 format ids, own codes registered or not", ["integer", "negative", "zero"]),
 h("hcommon.GeneralFloats", 60, 300, "6 leading parts, 9 powers of ten from 1e-14 to 1e90, every 3 (thorough 4) further digits and both signs, 6 format ids", ["number", "exact"]),
 h("hcommon.GeneralTexts", 15, 60, "6 own codes with General and literals, every whole number of up to 5 digits, as integer or float", ["text", "literal"]),
 h("hcommon.GeneralBools", 3, 10, "both booleans", ["boolean"]),
], ["six digits are enough for numbers that need more than eleven characters", "numbers of more than 18 digits in int64 are outside"])
prop("C48", "The same workbook is read with and without something in it that holds no cells, and everything delivered is compared.", [
 h("hxls.Foreign", 8, 30, "a record of any of 65000 types with 0 to 20 any bytes, continued or not, before or behind any record of the globals and of a sheet with every kind of cell", ["same"]),
 h("hxls.Layout", 4, 10, "any sheet options (a dialog included), row sizes and row flags", ["same", "dialog"]),
 h("hxlsx.Foreign", 45, 90, "unknown elements, attributes, comments, instructions and space, with any text of 2 characters, at the begin and end of every element of every part", ["same"]),
 h("hxlsx.ForeignPart", 10, 30, "an unreferenced part of 10 names and any 6 bytes, or with a table, between any two parts", ["same"]),
], ["blank cells, labels of older versions and comments on links are not foreign", "unknown elements with children of known names are left aside"])
