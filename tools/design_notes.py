ORACLE.update({
"C01": "No panic, no path beyond the step bound, no allocation above a constant plus a multiple of the file size (`vrt.AllocLimit`); every stream that opens is read to its end.",
"C02": "As C01, over the record stream inside a healthy compound file; the allocation limit follows the data and the largest sheet.",
"C03": "As C01, over the parts of a package.",
"C04": "An independent writer lays the stream out in sectors (any start, any stride, any slot of the directory); the read bytes, the listed names and the end of file are compared with what was written.",
"C05": "A flat byte slice with a position.",
"C06": "An independent RC4 (own key schedule over the standard MD5) encrypts the stream; the plain workbook is read side by side and all rows, types and formats are compared.",
"C07": "An independent block-wise RC4 over the whole input.",
"C08": "A table writer with an explicit cut position and width flag behind the cut; the shown text is compared unit by unit.",
"C09": "A plain grid of expected values and types, compared with every cell of the iteration.",
"C10": "The definition of the format: sign-extended upper 30 bits, or the upper 30 bits of a double, divided by 100.",
"C11": "Lists of names by visibility, and a marker cell per sheet section.",
"C12": "The eight result bytes as the format defines them and a continuation writer for texts.",
"C13": "The markers of every position computed from the range's corners.",
"C14": "A writer of link records with each optional part; text and target compared.",
"C15": "A plain two-dimensional list with put, set and link operations.",
"C16": "The three lists of the row and the type names of the documentation, cell by cell.",
"C17": "The stored value, or the error class by kind of destination.",
"C18": "A table of the ids that are built in; formatting twice gives the same text before and after registrations of other ids.",
"C19": "The text itself.",
"C20": "A checker that reads the shown text digit by digit against the number and checks each comma from the right.",
"C21": "A civil-from-days calendar written in the harness, and the second of the day.",
"C22": "The day number converted with each epoch.",
"C23": "The value itself; for coercions, integer and float conversion of Go.",
"C24": "The numeric order of the two values.",
"C25": "A grid with one marker; column letters decoded in the harness.",
"C26": "The text as put together from its pieces; numbers by an own digit reader.",
"C27": "The style table as written, with override flags applied by the harness.",
"C28": "The calls, sorted by priority, recorded by the registered openers.",
"C29": "Splitting at line feeds and tabs in the harness.",
"C30": "A state machine of the CSV grammar in the harness.",
"C31": "The rows of each sheet, delivered to each iterator from its own start.",
"C32": "Either an error, or every stored row is delivered.",
"C33": "`errors.Is`, `errors.As` and `Error()` for each member, at each nesting.",
"C34": "The shown whole part, numerator and denominator are read back and compared with the number (a fraction of two integers, all tabulated) in exact integer arithmetic.",
"C38": "The decimal digits of the number, rounded half away from zero in integers, compared with the digits shown.",
"C36": "The rows of the cells the harness wrote, after condensing and trimming by an own loop; every output file must be of exactly one sheet.",
"C45": "The readers of the formats, called directly.",
"C46": "The same file read without debug output.",
"C47": "The numeral is read back (sign, digits, point, exponent) and compared with the number as an integer and a power of ten.",
"C48": "The same file without the additional content.",
"C44": "The other reader.",
"C43": "The race detector, and the other goroutine's result.",
"C42": "The part that the harness gave each sheet.",
"C41": "The rows the harness wrote, in the order of the arguments.",
"C40": "The kinds of the cells the harness wrote.",
"C39": "A calendar in the harness and the layout that the id's code describes.",
"C35": "A reader of the code in the harness: list of fields and literals, shown for a calendar date; digit places with sign, grouping and decimals.",
"C37": "The number of files of the model (or of the process, natively) that are still open.",
})
