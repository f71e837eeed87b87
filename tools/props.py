p("C01", "Given any 80 bytes, parsing them as a header card terminates with a card or an error; it never panics, and neither do the queries on the resulting card (continued string, unit).",
  ["inputs"], "all 80-byte records, including bytes that are not ASCII or UTF-8, unbalanced quotes, missing separators",
  "The 256^80 cards cannot be sampled; the tests parse a few dozen well-formed ones.",
  ["src/card.rs"], [("Card::try_from(&CardBuf)", "src/card.rs"), ("split_value_and_comment", "src/card.rs"), ("parse_value / parse_string / parse_number / parse_hierarch / parse_extension / parse_continuation", "src/card.rs")], observe=["Card::try_from", "Card::continued", "Value::unit"])
p("C02", "A string written in a card (fixed or free position, quotes doubled, any printable characters including quotes, slashes and ampersands) is read back exactly, trailing blanks removed, an all-blank string as one blank and an empty one as empty; the text after the first slash outside the quotes is the comment, right-trimmed. The same holds for CONTINUE and HIERARCH cards, and a card counts as continued exactly when its string ends with an ampersand. Bytes that are not printable ASCII never break a string: they are replaced one by one and the rest is kept.",
  ["inputs"], "all printable strings and comments that fit in a card",
  "Unit tests cover about twenty hand-written cards; doubled quotes next to slashes, ampersands and field ends combine in far more ways.",
  ["src/card.rs"], [("split_value_and_comment", "src/card.rs"), ("parse_string", "src/card.rs"), ("Card::continued", "src/card.rs")], observe=["Card::try_from"])
p("C03", "An integer, real (E or D exponent) or logical value in a card, with any sign, any number of leading blanks and an optional comment, is read as exactly the number or truth value written and as that kind; a blank value field is read as undefined.",
  ["inputs"], "all decimal integers and reals that fit in a card within the stated digit counts, both logical letters",
  "Tests sample a handful of numbers.",
  ["src/card.rs"], [("parse_value", "src/card.rs"), ("parse_number", "src/card.rs")], observe=["Card::try_from"])
p("C04", "The keyword in columns 1-8 decides what a card is: COMMENT, HISTORY and blank keywords keep the text of columns 9-80 (right-trimmed, bytes outside printable ASCII replaced one by one), an entirely blank card is a space, END ends the header, any other keyword followed by '= ' is a value card under exactly that name, a HIERARCH card is a value card under the words between HIERARCH and the equals sign, and one without the value indicator is kept verbatim as undefined.",
  ["inputs"], "all keywords over the FITS alphabet and all commentary bytes",
  "Tests use a few fixed keywords and comments.",
  ["src/card.rs"], [("Card::try_from(&CardBuf)", "src/card.rs"), ("parse_comment_text", "src/card.rs"), ("parse_empty_keyword_card", "src/card.rs")], observe=["Card::try_from"])
p("C05", "A string keyword (plain or HIERARCH) ending in an ampersand and directly followed by CONTINUE cards reads as the concatenation of the pieces without the joining ampersands, with the comments joined by newlines; a CONTINUE card that does not directly follow a continued string changes nothing, and neighbouring keywords are unaffected. Joining the cards or values by hand (append, splice) gives the same.",
  ["inputs", "histories"], "all splits of a long string into pieces, all interleavings with other cards within the bound",
  "Tests have three long strings; sequences of cards and empty, blank or quote-bearing pieces are unbounded.",
  ["src/hdu/header/mod.rs", "src/card.rs"], [("Header::parse continuation handling", "src/hdu/header/mod.rs"), ("Value::append / append_string", "src/card.rs")], observe=["Header::get", "Header::get_parsed"])
p("C06", "After parsing a header, looking up a keyword returns the value of its last card; keywords are listed once, in the order of first appearance; all cards and all HISTORY texts are listed in file order; keywords without a value are not found; looking a value up returns the first listed keyword that has it.",
  ["inputs"], "all values and texts in headers mixing repeated, HIERARCH, commentary and no-value cards",
  "Tests check a few lookups in sample files.",
  ["src/hdu/header/mod.rs"], [("Header::parse / ValueMap", "src/hdu/header/mod.rs")], observe=["Header::get", "Header::keywords", "Header::iter", "Header::cards", "Header::history"])
p("C07", "Reading a keyword as a requested type returns the exact value if that type can hold it and an error otherwise: never a truncated, wrapped or reinterpreted value, and never a panic. An absent or undefined keyword reads as none for an optional type and as an error otherwise.",
  ["inputs"], "all integers within the digit bound for every integer width and sign, all value kinds",
  "Tests read a few keywords as one type each; the boundaries of each width are not sampled.",
  ["src/hdu/header/mod.rs", "src/card.rs"], [("Header::get_parsed", "src/hdu/header/mod.rs"), ("Deserializer for Value", "src/card.rs")], observe=["Header::get_parsed"])
p("C08", "The unit of a keyword value is the text between the brackets that open its comment (blanks before the bracket are skipped), for every kind of value; without such a closed bracket there is no unit, and brackets inside the value do not count.",
  ["inputs"], "all comments within the bound", "Tests check two comments.",
  ["src/card.rs"], [("Value::unit / parse_unit", "src/card.rs")], observe=["Value::unit"])
p("C09", "Iterating over a file yields every HDU in order, with the byte offset and byte size of its data unit as the standard defines them, whatever the size of header and data unit and however much of the data the caller consumed or skipped in between, and then ends.",
  ["inputs", "histories"], "all axis sizes, BITPIX, heap sizes and header lengths within the bound; all amounts of data consumed before advancing",
  "The sample files have a handful of sizes; boundary cases of the 2880-byte padding and partially read data units are not covered.",
  ["src/fits.rs", "src/hdu/mod.rs", "src/hdu/data/mod.rs", "src/hdu/header/mod.rs", "src/hdu/header/extension/image.rs", "src/hdu/header/extension/bintable.rs", "src/hdu/header/extension/asciitable.rs"],
  [("Fits::next / consume_until_next_hdu", "src/fits.rs"), ("get_num_bytes_data_block", "src/hdu/header/extension/*.rs"), ("Header::parse block consumption", "src/hdu/header/mod.rs")], observe=["Fits::next", "HDU::get_data_unit_byte_offset", "HDU::get_data_unit_byte_size"])
p("C10", "The pixels of an image are the big-endian values of the data unit in storage order, one per pixel, in the type BITPIX names, bit for bit (floats included); the raw bytes of an image are exactly its data unit even after the pixels have been read.",
  ["inputs"], "all pixel bytes, BITPIX and shapes within the bound", "Tests compare a few sample images.",
  ["src/hdu/data/image.rs", "src/hdu/data/iter.rs", "src/hdu/data/mod.rs"], [("Pixels iterators", "src/hdu/data/iter.rs"), ("ImageData::new / raw_bytes", "src/hdu/data/image.rs")], observe=["Fits::get_data", "Pixels", "ImageData::raw_bytes"])
p("C11", "Reading pixel i at random returns the value iteration would yield at position i, an index past the end is an error, and iteration continues after the pixel read last, for any interleaving of such operations.",
  ["inputs", "histories"], "all data bytes, all operation sequences within the bound", "No test interleaves random access with iteration.",
  ["src/hdu/data/iter.rs"], [("It::read_value / Iterator for It", "src/hdu/data/iter.rs")], observe=["It::read_value", "It::next"])
p("C12", "Reading a binary table yields, row by row and column by column, one value per element in the type TFORM names (with or without a repeat count, letters after the type ignored), bit for bit (logical true for 'T' only; bit columns byte by byte, repeat rounded up to whole bytes; zero-repeat columns nothing), with its column and its index in the cell; row iteration yields the same values grouped by row; raw bytes are the whole data unit; and afterwards the next HDU is found.",
  ["inputs"], "all data bytes, column types, repeat counts and row counts within the bound",
  "Tests read a few sample tables and compare a few cells.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs", "src/hdu/data/bintable/mod.rs", "src/hdu/header/extension/bintable.rs"],
  [("TableData iterator", "src/hdu/data/bintable/data.rs"), ("TableRowData", "src/hdu/data/bintable/row.rs"), ("BinTable parse of TFORM/TTYPE", "src/hdu/header/extension/bintable.rs")], observe=["TableData::next", "TableData::row_iter", "TableData::raw_bytes"])
p("C13", "Selecting columns (by index or exact name, any order, repetitions and unknown columns included) makes a binary table yield exactly the cells of those columns in file order; seeking to row r makes reading continue at the first selected cell of row r, from any position and any number of times; seeking past the end is an error that moves nothing; row iteration starts at the row sought.",
  ["inputs", "histories"], "all selections and all seek/read sequences within the bound, all data bytes",
  "Tests select columns and seek once or twice in sample files, always in one order.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs"],
  [("TableData::select_fields / seek_to_row", "src/hdu/data/bintable/data.rs"), ("TableData iterator", "src/hdu/data/bintable/data.rs"), ("TableRowData", "src/hdu/data/bintable/row.rs")], observe=["TableData::select_fields", "TableData::seek_to_row", "TableData::next", "TableData::row_iter"])
p("C14", "A variable length array column (P or Q, any element type) yields exactly the elements its descriptor designates in the heap (found by THEAP or right after the table), empty arrays yield nothing, and the reader then continues with the next cell; a descriptor that reaches outside the data unit yields none of its elements and ends the iteration, without a panic, a value from elsewhere, or an endless loop, and the next HDU is still found.",
  ["inputs", "histories"], "all descriptor bit patterns over small heaps; all array lengths/positions/seek/selection combinations within the bound, all heap bytes",
  "Tests read one sample file with variable length arrays; malformed descriptors are not tested.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs", "src/hdu/header/extension/bintable.rs"],
  [("TableData: variable length array handling", "src/hdu/data/bintable/data.rs"), ("BinTable::get_heap_byte_size / THEAP", "src/hdu/header/extension/bintable.rs")], observe=["TableData::next", "TableData::row_iter"])
p("C15", "A RICE_1 compressed tile (32-bit stream, any block size, low-entropy, Rice-coded and raw blocks, any differences including ones that wrap around) decodes to exactly the pixels that were encoded; a malformed or truncated stream ends the iteration and never panics.",
  ["inputs"], "all pixel values and block codings within the bound; all short byte streams",
  "Tests decode a few sample files (not in the repository) and save pictures of them.",
  ["src/hdu/data/bintable/tile_compressed/rice.rs", "src/hdu/data/bintable/tile_compressed/pixels.rs"],
  [("RICEDecoder::read", "src/hdu/data/bintable/tile_compressed/rice.rs"), ("Iterator for It<_, U8/I16/I32Keywords>", "src/hdu/data/bintable/tile_compressed/pixels.rs")], observe=["Pixels iterators"])
p("C16", "Iterating over a tile compressed image (RICE_1, GZIP_1 or GZIP_2, 8, 16 or 32-bit integers stored as 32-bit elements) yields exactly the pixels of the image, tile by tile in row order, including smaller tiles at the borders, the default tiling, heaps in any order, with gaps, P or Q descriptors and other columns in the table; afterwards the next HDU is found.",
  ["inputs"], "all pixel values; image and tile shapes, table layouts within the bound",
  "Tests decode a few sample files whose tiles divide the axes, without checking values.",
  ["src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/header/extension/bintable.rs", "src/hdu/data/bintable/row.rs"],
  [("It::load_tile / num_pixels_in_tile", "src/hdu/data/bintable/tile_compressed/pixels.rs"), ("TileCompressedImage parsing", "src/hdu/header/extension/bintable.rs")], observe=["Pixels iterators"])
p("C17", "A quantized floating point pixel reads as (value - r + 0.5) * ZSCALE + ZZERO with the dithering value r its tile row, its position and ZDITHER0 determine (value * ZSCALE + ZZERO without dithering), with the scale and zero of its own tile; a value equal to ZBLANK (column or keyword) reads as NaN, and under SUBTRACTIVE_DITHER_2 the value -2147483647 reads as zero.",
  ["inputs"], "all 32-bit quantized values; tiles, seeds, blank settings within the bound",
  "Tests decode two sample files without checking values.",
  ["src/hdu/data/bintable/tile_compressed/mod.rs", "src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/bintable/tile_compressed/dithering.rs", "src/card.rs"],
  [("F32Keywords / F64Keywords::unquantize", "src/hdu/data/bintable/tile_compressed/mod.rs"), ("random_generator", "src/hdu/data/bintable/tile_compressed/dithering.rs"), ("Iterator for It<_, F32/F64Keywords>", "src/hdu/data/bintable/tile_compressed/pixels.rs")], observe=["Pixels iterators"])
p("C18", "An ASCII table lists, in order, one column per field with both TBCOLn and TFORMn, with exactly the start column, letter, width and decimals written; its data are exactly the bytes of the data unit, and the next HDU is found however much of them was read.",
  ["inputs"], "all data bytes, all column positions, widths and decimals, all amounts read within the bound",
  "One test reads one sample table.",
  ["src/hdu/header/extension/asciitable.rs", "src/hdu/data/asciitable.rs"],
  [("AsciiTable::parse", "src/hdu/header/extension/asciitable.rs"), ("Data::new", "src/hdu/data/asciitable.rs")], observe=["AsciiTable accessors", "Fits::get_data"])
p("C19", "The first HDU of a file is a primary HDU exactly when its first card is SIMPLE = T; an extension is an image, binary table or ASCII table exactly as its XTENSION value says; a header with another first card, an unknown XTENSION, or a mandatory keyword that is missing, of the wrong type or out of range yields an error, after which the list of HDUs ends. Only the first card of a header decides; SIMPLE or XTENSION cards further down change nothing. Reading asynchronously makes no difference.",
  ["inputs"], "all first cards, XTENSION values and values of mandatory keywords within the bound", "Tests open well-formed files and two broken ones.",
  ["src/hdu/mod.rs", "src/fits.rs", "src/async_fits.rs", "src/hdu/header/mod.rs", "src/hdu/header/extension/mod.rs", "src/hdu/header/extension/image.rs", "src/hdu/header/extension/bintable.rs", "src/hdu/header/extension/asciitable.rs"],
  [("HDU::new_primary / new_xtension, AsyncHDU likewise", "src/hdu/mod.rs"), ("check_for_bitpix / naxis / naxisi / pcount / gcount / tfields", "src/hdu/header/mod.rs"), ("Iterator for Fits", "src/fits.rs")], observe=["Fits::next", "AsyncFits::poll_next"])
p("C20", "Reading a file asynchronously yields the same HDUs with the same headers (or the same error) and the same pixels or data bytes, in order, whatever sizes the reader hands the bytes out in and wherever and however often it is not ready; a data stream that was read in part or dropped while waiting does not disturb what follows.",
  ["inputs", "schedules", "histories"], "all stop positions within the windows, chunk sizes, consumption patterns within the bound, all data bytes",
  "Tests read local files, for which the reader is always ready and buffers are full.",
  ["src/async_fits.rs", "src/hdu/data/stream.rs", "src/hdu/mod.rs", "src/hdu/header/mod.rs"],
  [("Stream for AsyncFits / consume_until_next_hdu", "src/async_fits.rs"), ("St / DataStream", "src/hdu/data/stream.rs")], observe=["AsyncFits::poll_next", "DataStream::poll_next"])
p("C21", "Whatever is wrong with a file (damaged cards, sizes that do not match the data or are absurd, truncation anywhere, damaged descriptors or compressed tiles), iterating over it and reading its data in any way terminates with errors or fewer values; it never panics or runs forever, and the list of HDUs ends.",
  ["inputs", "histories"], "all single damaged bytes in headers and data, all truncation points within the bound",
  "Tests read two damaged files.",
  ["src/fits.rs", "src/async_fits.rs", "src/hdu/mod.rs", "src/hdu/header/mod.rs", "src/hdu/header/extension/bintable.rs", "src/hdu/data/iter.rs", "src/hdu/data/image.rs", "src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/stream.rs"],
  [("Fits::next", "src/fits.rs"), ("data_unit_size checks", "src/hdu/header/extension/mod.rs"), ("data readers", "src/hdu/data")], observe=["Fits::next", "Fits::get_data and the iterators"])
p("C22", "Opening a file that is gzipped as a whole gives exactly the HDUs, pixels and offsets of the file it holds, whether it was compressed in one or several members; a file that is not gzipped is read as it stands; a gzipped file that is cut or damaged (its checksum or length do not fit) is an error and never gives wrong data.",
  ["inputs"], "all bytes covered by the checksum within the bound, all single-byte damages, cuts and member splits within the bound",
  "Tests open two gzipped sample files and no damaged one.",
  ["src/gz.rs", "src/file.rs"], [("GzReader::new, Read and Seek for GzReader", "src/gz.rs")], observe=["GzReader::new", "Fits::next", "Pixels iterators"])
p("C23", "A FITS file opened through the image crate is detected and decoded as its first non-empty (or tile compressed) image with the width and height of its first two axes, flipped vertically, grey or RGB (third axis of 3, planes in order) in the colour type its BITPIX calls for; 8 and 16-bit pixels are BZERO + BSCALE * value rounded and clamped to the colour range, 32 and 64-bit integers that value divided by the largest integer, floats unchanged; other shapes are errors.",
  ["inputs"], "all pixel bytes for the layouts, shapes and scalings within the bound",
  "Tests check width, height and colour type of sample files (most of them not in the repository), never a pixel.",
  ["src/image_integration.rs"], [("FitsDecoder", "src/image_integration.rs"), ("write_u8 ... write_f64, write_rgb / write_luma / write_splat", "src/image_integration.rs")], observe=["image::ImageReader", "ImageDecoder::read_image"])
p("C24", "What is read from a file does not depend on how the reader hands out its bytes: if reads return fewer bytes than asked for or are interrupted, the HDUs, headers and values are exactly those of the same file read in one piece; if the reader fails, that is an error or an early end, never a wrong value or a panic.",
  ["inputs", "schedules"], "all read sizes, interruption and failure positions within the windows, all data bytes",
  "Tests read local files and in-memory cursors, whose reads are always full and never fail.",
  ["src/fits.rs", "src/hdu/mod.rs", "src/hdu/header/mod.rs", "src/hdu/data/iter.rs", "src/hdu/data/image.rs", "src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs", "src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/asciitable.rs"],
  [("Header / HDU reading", "src/hdu/header/mod.rs"), ("data readers", "src/hdu/data")], observe=["Fits::next", "Fits::get_data and the iterators"])
p("C25", "The WCS of an image HDU is built from that HDU's own header keywords, so that projecting and unprojecting a position are inverse to each other and agree with the standard; a header without a usable WCS is an error and not a panic.",
  ["inputs"], "all headers with WCS keywords, all positions",
  "Tests need the wcs crate and check a few positions.",
  ["src/wcs.rs"], [("ImgXY / LonLat / WCS of an HDU", "src/wcs.rs")], title="The WCS of an image comes from its own header", observe=["HDU::wcs"])
NA.append({"property": "C25", "reason": "src/wcs.rs is a thin wrapper around the `wcs` crate, a git dependency that is not in this sandbox (nothing of it can be fetched): neither the code nor bitcode of what the property depends on exists here, and the build the task provides (/opt/vp/build.sh) cuts src/wcs.rs out as well."})
