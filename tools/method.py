"""How each property is decided (goes into DESIGN.md)."""
M = {
"C01": "Harness `h_card_total` calls `Card::try_from` on a template card with a window of arbitrary bytes, then `continued` and `unit` on the result. Nothing is asserted beyond termination: every panic (slice, UTF-8, overflow, `unreachable!`) reached on a feasible path is a violation.",
"C02": "The harness writes a string of arbitrary characters into a card by the rules of the standard (quotes doubled, padding, comment) and asserts that the parsed value and comment are the string, trailing blanks removed. The oracle is the writer, not a second parser. `h_card_string_any` does it for arbitrary bytes: bytes below 0x20 or above 0x7E must come back as one replacement character per broken sequence while the rest of the string stays.",
"C03": "The harness writes digits it chooses symbolically and asserts the integer they denote (computed in the harness as a sum over the digits), its kind and its comment. For reals the oracle is `str::parse::<f64>` on the same digits.",
"C04": "Arbitrary keyword characters decide which of the card kinds must come out; the expected kind and text are computed from the 80 bytes. HIERARCH names are written word by word and must come back joined by dots.",
"C05": "The harness splits a string into pieces over CONTINUE cards, optionally interrupts them, and asserts value and comment of the keyword, of its neighbour, and the list of cards. `h_card_append` does the same through `Card::append/splice` and `Value::append/splice`.",
"C06": "A header of known structure and arbitrary values: get, keywords, iter, cards, history, get_keyword and unknown keywords are compared with the list the header was written from.",
"C07": "For each integer width the harness writes an arbitrary number and asserts Ok(exact) iff it fits, computed in i128. Other value kinds must be refused or read exactly.",
"C08": "The comment is written from its parts (blanks, bracket, unit, rest); the unit must be the text up to the first closing bracket.",
"C09": "The harness computes the data unit size from arbitrary axis digits (in u128), lays the HDU out at that size over a virtual reader (so that sizes of gigabytes cost nothing) and asserts offset, size, the next HDU and the end, after an arbitrary amount of data was consumed. `h_walk_multi` walks files of several HDUs with every combination of skipped, partly and wholly read data units.",
"C10": "Each pixel must be the big-endian combination of the data bytes at its position, compared bit for bit; raw bytes must be the data unit.",
"C11": "A symbolic sequence of operations (read index i, read an index past the end, next) runs against a model consisting of one position; values are compared bit for bit. `h_image_far` uses a virtual reader for images beyond 2^32 pixels.",
"C12": "The harness writes a table cell by cell and lists (row, column, index, kind, bits) of every value; the reader must produce that list, in order, and then end and let the next HDU be found.",
"C13": "As C12, with a symbolic choice of selected columns and a symbolic sequence of seeks and reads against a model with one position. `h_colname` looks columns up by an arbitrary name.",
"C14": "As C12 with array descriptors; `h_descriptor` makes all 64 or 128 bits of a descriptor arbitrary: the solver splits on whether the array lies inside the data unit, and the elements are asserted in the first case, the end of the iteration in the second.",
"C15": "The harness contains an encoder: it writes symbolic differences with symbolic remainders bit by bit (with chosen block codes and unary prefixes) and asserts the pixels. `h_rice_any` goes the other way: arbitrary bytes, with a bit-by-bit reference decoder as oracle and 'no more values than pixels' for streams that are no encoding.",
"C16": "Tiles of arbitrary pixels are encoded (stored deflate blocks with symbolic content, RICE with symbolic remainders), laid out as rows of a table with the given descriptors, and the pixels must come out tile by tile.",
"C17": "The same layout with quantized values; the oracle evaluates the formula in f32 with the random sequence generated by the standard's recurrence (in the harness, in f64), and compares within the stated rounding distance, so that an algebraically equal formula passes. Float terms go to z3's FP theory.",
"C18": "The header is written from arbitrary positions, widths and decimals and the accessors must return them; data bytes are compared one by one.",
"C19": "The harness decides from the symbolic bytes whether the first card is SIMPLE = T (or the XTENSION value one of the three names, or the mandatory keyword acceptable), and asserts which HDU or error the synchronous and the asynchronous iterator yield, and that the list ends after an error.",
"C20": "`h_async` drives `poll_next` by hand over a reader whose chunk boundaries and not-ready positions are symbolic, with every consumption pattern, and asserts HDUs and values. `h_parity` iterates the synchronous and the asynchronous reader over the same (damaged) file and asserts equal kinds and equal headers.",
"C21": "Seven template files with an arbitrary byte, or a cut; everything is read in all ways with counters that bound the number of values by the size of the file. A panic, an arithmetic overflow, an endless loop (step limit) or an unending HDU list is a violation.",
"C22": "The harness gzips a file itself (stored blocks; CRC computed symbolically where bytes are arbitrary) and asserts HDUs, offsets and pixels; for damaged files it asserts the error.",
"C23": "A FITS file with arbitrary pixel bytes is decoded through `image::ImageReader` (format detection, hook, decoder); width, height, colour type, orientation and every sample are compared with the formula of the statement.",
"C24": "A reader whose short reads, interruptions and failures happen at symbolic positions; every HDU and value read must be the one of the file, or an error/end after a failure.",
}
