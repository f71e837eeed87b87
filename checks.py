"""Which harness cases decide which property, per tier, and with what stated bounds."""

COMMON_ASSUMPTIONS = [
    "The code executed symbolically is the LLVM bitcode rustc (stable, fat LTO with std, opt-level 1, overflow checks and debug assertions on, panic=abort, x86_64) emits for /repo's current working tree; code generation below LLVM IR is trusted.",
    "/repo's optional `wcs` dependency is a git dependency that is not available offline: src/wcs.rs and the items that name it are cut out before building, as /opt/vp/build.sh does; every other source file is compiled as it stands.",
    "The symbolic executor (/verif/engine) and z3 are trusted; executor runs are cross-checked by re-running solver-chosen inputs of finished paths natively and comparing what was observed.",
    "Memory allocation never fails; single-threaded execution.",
    "Everything outside the listed bounds is outside the claim.",
]


def c(entry, *params, **kw):
    d = {"entry": entry, "params": list(params)}
    d.update(kw)
    return d


CHECKS = {}


def prop(pid, title, bounds, assumptions=()):
    def deco(f):
        CHECKS[pid] = {"title": title, "bounds": bounds, "assumptions": list(assumptions), "cases": lambda tier: f(tier == "thorough")}
        return f
    return deco


@prop("C01", "Any 80 bytes parse as a header card or give an error, never a panic",
      "28 card templates (string, integer, float, XTENSION, HIERARCH, CONTINUE, commentary, blank; open and closed quotes; blank behind the value, or filled to column 80 with letters, digits, quotes, brackets, equals signs, zeros or bytes outside ASCII), each with a window of 2 (quick) or 3 (thorough; 1 inside numbers of 70 digits) arbitrary bytes (all 256 values) at every position of 0..=77; windows of up to 4 arbitrary bytes right after the value indicator; two distant arbitrary bytes at 20 (thorough: 120) pairs of positions; bytes outside the windows as in the template")
def _(deep):
    out = []
    for t in range(28):
        for p in range(0, 79 if not deep else 78, 1):
            w = 1 if t == 14 and p > 7 else 3 if deep and t < 12 else 2
            if not deep and p > 30 and p % 6 and p < 77:
                continue
            out.append(c("h_card_total", t, p, w, covers=[2], cost=3 if t in (14, 15) else 1))
        if t < 12:
            out.append(c("h_card_total", t, 10, 4 if deep else 3, covers=[2], cost=5))
        for p in (8, 9, 10, 11, 20) if not deep else (0, 4, 7, 8, 9, 10, 11, 12, 13, 20, 30, 50):
            for q in (31, 47, 66, 79) if not deep else (31, 37, 43, 47, 55, 61, 66, 72, 78, 79):
                if q > p:
                    out.append(c("h_card_total", t, p, 1, q, 1, covers=[2], cost=3 if t in (14, 15) else 1))
    return out


@prop("C02", "String values read back exactly as written",
      "value, CONTINUE and HIERARCH cards; every string of 0..=5 printable characters (quick; 0..=8 thorough) incl. quotes, ampersands, slashes and blanks, 0..2 leading blanks, no comment or a comment of 0..2 arbitrary printable characters; long strings up to the 68-character limit with a window of 3 arbitrary characters at several positions; strings and comments with 1..=2 (thorough: 3) arbitrary bytes of all 256 values at several positions")
def _(deep):
    out = []
    for kind in range(4):
        for n in range(0, 9 if deep else 6):
            for lead, pad, m in ((0, 1, 99), (0, 1, 2), (2, 0, 1), (1, 2, 0)):
                if not deep and n == 5 and kind > 1 and m != 2:
                    continue
                out.append(c("h_card_string", kind, n, lead, pad, m, cost=n))
        full = {0: 68, 1: 68, 2: 57, 3: 67}[kind]
        for n in (20, 40, full - 1, full):
            for p in sorted({0, 1, n // 2, n - 4, n - 3}):
                for m in (99, 1):
                    out.append(c("h_card_string_window", kind, n, p, 3, m, covers=[1] if n + 2 + (3 if m == 1 else 0) <= full + 2 else [], cost=3))
        for place in (0, 1):
            for a, n, b in ((0, 1, 0), (0, 1, 3), (3, 2, 2), (6, 2, 4), (9, 2, 1), (13, 1, 6)) + (((3, 3, 3), (0, 3, 0)) if deep else ()):
                if place == 1 and b == 0:
                    continue
                out.append(c("h_card_string_any", kind, a, n, b, place, cost=n))
    return out


@prop("C03", "Integers, floats and logicals in cards denote the written value",
      "integers of 1..=12 decimal digits with and without sign (thorough: 15); integers of 10..=20 digits whose last 3 (thorough: 4) are arbitrary, around 2^32, 2^53 and 2^63 (beyond 64 bits never an integer); floats with 0..=3 integer, 0..=3 fraction and up to 2 exponent digits, E and D exponents, signs, in plain and HIERARCH cards; T/F; undefined values; 0..20 leading blanks; 0..2 characters of comment",
      ["The decimal-to-binary conversion of the oracle for floats is Rust's own str::parse::<f64> applied to the text with D replaced by E."])
def _(deep):
    out = []
    for kind in (0, 2, 3):
        for n in (range(1, 16) if deep else (1, 2, 5, 9, 10, 12)):
            for sign in (0, 1, 2):
                out.append(c("h_card_int", kind, n, sign, 0, 99, cost=n))
        for lead in (1, 9, 19):
            out.append(c("h_card_int", kind, 3, 0, lead, 2))
        for which in range(6):
            for sign in (0, 1, 2):
                out.append(c("h_card_long", kind, which, 4 if deep and which != 1 else 3, sign, 0, covers=[1, 2] if which == 1 else [1], cost=3))
    fl = [(0, 1, 1, 0, 0, 0, 0, 99), (1, 1, 0, 0, 0, 0, 1, 1), (2, 2, 1, 1, 0, 1, 0, 99), (0, 1, 1, 2, 2, 1, 0, 99), (0, 1, 1, 1, 1, 1, 0, 2), (2, 1, 0, 2, 1, 1, 3, 99), (0, 1, 99, 1, 2, 1, 0, 99), (0, 1, 99, 2, 0, 1, 0, 1)]
    if deep:
        fl += [(0, 2, 2, 1, 0, 1, 0, 99), (0, 2, 2, 2, 2, 1, 0, 99), (2, 3, 1, 0, 0, 0, 5, 1)]
    fl += [(0, 0, 2, 0, 0, 0, 0, 99, 0), (1, 0, 1, 0, 0, 0, 2, 1, 0), (2, 0, 1, 1, 2, 1, 0, 99, 0), (0, 0, 1, 2, 0, 1, 0, 99, 2), (0, 2, 0, 0, 0, 0, 0, 99, 2), (0, 1, 1, 0, 0, 0, 1, 1, 3), (2, 1, 0, 2, 1, 1, 0, 1, 3)]
    for f in fl:
        out.append(c("h_card_float", *f, cost=8))
    for lead in (0, 1, 19):
        for m in (99, 0, 2):
            out.append(c("h_card_misc", 0, 0, lead, m))
            out.append(c("h_card_misc", 1, 0, lead, m))
    return out


@prop("C04", "Cards are classified by keyword: value, commentary, END, blank, no-value",
      "every keyword of 1..=4 (quick) or 1..=8 (thorough) characters of the FITS keyword alphabet; COMMENT/HISTORY/blank-keyword text with windows of 3 arbitrary bytes at several columns; cards without a value indicator; HIERARCH names of 1..=4 words of 1..=6 arbitrary characters with 0..=3 blanks between and around them")
def _(deep):
    out = [c("h_card_keyword", n, cost=n * n) for n in range(1, 9)]
    for what in (2, 3, 4):
        for lead in ((0, 1, 7, 33, 69) if not deep else range(0, 70, 3)):
            out.append(c("h_card_misc", what, 3, lead, 0, cost=2))
    out.append(c("h_card_misc", 5, 0, 0, 0))
    for n in (2, 3, 4):
        out.append(c("h_card_misc", 6, n, 0, 0))
    for k in (1, 2, 3, 4):
        for n in (1, 2, 3, 6):
            for gap, before, after, lead in ((1, 1, 1, 0), (2, 0, 0, 0), (1, 0, 1, 1), (3, 2, 0, 2), (1, 3, 3, 0)):
                out.append(c("h_card_hierarch", k, n, gap, before, after, lead))
    return out


@prop("C05", "CONTINUE cards extend the preceding string and nothing else",
      "strings in 1..=3 pieces of 0..=2 arbitrary printable characters (thorough: 4 pieces, 3 characters), as a plain or a HIERARCH keyword, with or without comments on each piece, followed by another keyword, END, or an interrupting COMMENT/blank/no-value card and an orphaned CONTINUE; strings of 2..=40 full cards (66..=67 characters each, one arbitrary in each of up to 8); pieces put together with Card/Value::append and splice")
def _(deep):
    out = []
    for kind in (0, 1):
        for k in ((1, 2, 3, 4) if deep else (1, 2, 3)):
            for n in ((0, 1, 2, 3) if deep else (0, 1, 2)):
                if k * n > 8 or (not deep and k * n > 4):
                    continue
                for cm in (0, 1, (1 << k) - 1, 1 << (k - 1)):
                    for after in range(7):
                        out.append(c("h_header_continue", kind, k, n, cm, after, cost=k * n))
        for k in (2, 5, 8):
            for n in (0, 4, 66, 67):
                for b in (0, 1):
                    out.append(c("h_header_longstr", kind, k, n, b, cost=3))
        out.append(c("h_header_longstr", kind, 40, 3, 0))
        for which in (0, 1, 2, 3):
            for n, k, cm in ((2, 2, 0), (2, 2, 3), (1, 3, 5), (0, 3, 2), (1, 2, 1), (2, 3, 7 if deep else 4)):
                out.append(c("h_card_append", 2 * kind, which, n, k, cm, cost=n * k))
    return out


@prop("C06", "A header is an ordered keyword map in which the last repeated keyword wins",
      "headers with two keywords, one repeated, a HIERARCH keyword, commentary and no-value cards, arbitrary integer values of 1..=4 digits and HISTORY text; headers of 1..=300 keywords over up to 13 blocks, some repeated, with arbitrary values for the last ones")
def _(deep):
    return [c("h_header_map", n) for n in ((1, 2, 4, 9) if deep else (1, 2, 4))] + [c("h_header_many", n, step) for n in (1, 2, 5, 8, 17, 33, 60, 100, 300) for step in (0, 1, 3, 10) if step < n]


@prop("C07", "Typed keyword access returns the exact value or an error",
      "all eight integer types, usize, f64, Option, bool and String; integers of 1..=5 digits (thorough: 12) with and without sign, and of 16 digits around 2^53; whole headers read into a record",
      )
def _(deep):
    out = []
    for what in range(11):
        for nd in ((1, 3, 5, 10, 12) if deep else (1, 3, 5)):
            for sign in (0, 1, 2):
                if what == 9 and nd > 5:
                    continue
                out.append(c("h_header_typed", what, nd, sign, cost=nd))
        if not deep and what in (4, 5, 6, 7, 8):
            out.append(c("h_header_typed", what, 10, 0, cost=10))
            out.append(c("h_header_typed", what, 10, 2, covers=[2] if what in (4, 6, 8) else [1], cost=10))
    for x in out:
        w, nd, s = x["params"]
        if w in (0, 2, 4, 6, 8) and s == 2:
            x["covers"] = [2]
    for w in range(11):
        for s in (0, 2):
            if w != 9:
                out.append(c("h_header_typed", w, 103, s, covers=[2] if w < 6 or s == 2 and w in (6, 8) else [1]))
    out.append(c("h_header_typed", 11, 1, 0))
    for nd in (1, 4, 5):
        for s in (0, 2):
            out.append(c("h_header_record", nd, s, covers=[1, 2] if nd == 5 and s == 0 or s == 2 else [1], cost=4))
    return out


@prop("C08", "The unit of a keyword is the bracketed text that opens its comment",
      "units of 0..=4 arbitrary printable characters, 0..=2 blanks before the bracket, up to 3 arbitrary characters after it, on integer, string, float and logical values")
def _(deep):
    out = []
    for n in range(0, 5):
        for lead in (0, 1, 2):
            for m in (0, 1, 3):
                for kind in ((0, 1, 2, 3) if deep or n == 2 else (0,)):
                    out.append(c("h_header_unit", n, lead, m, kind))
    return out


@prop("C09", "Iterating HDUs lands on every header exactly, whatever was read in between",
      "primary and extension images of 0..=12 axes, binary and ASCII tables; axis sizes, PCOUNT as arbitrary decimal numbers (1 digit each, or 2..=4 digits for one axis beside fixed ones up to 100000, data units beyond 2^32 bytes); headers of 1..=3 blocks; 0..=16 bytes of the data unit consumed first; files of 2..=6 HDUs of every kind, data units ending before, at and after block and buffer boundaries, each HDU skipped, read in part or whole in every combination, from memory and through buffered readers",
      )
def _(deep):
    out = []
    for bp in range(6):
        out.append(c("h_walk_size", 0, 1, bp, 1, 0, 0))
        out.append(c("h_walk_size", 1, 1, bp, 2, 0, 0))
    for read in (0, 1, 2, 8):
        out.append(c("h_walk_size", 0, 1, 1, 3, read, 0, cost=4))
        out.append(c("h_walk_size", 1, 2, 0, 1, read, 0, cost=4))
        out.append(c("h_walk_size", 2, 1, 0, 0, read, 0, cost=4))
    out += [c("h_walk_size", 0, 1, 1, 0, 0, 0), c("h_walk_size", 3, 2, 0, 0, 0, 0, 0, 4), c("h_walk_size", 3, 1, 0, 0, 1, 0)]
    out.append(c("h_walk_size", 0, 1, 1, 10, 0, 0, 3, 3, 3, 3, 3, 3, 3, 0, 0, 3, cost=3))
    out.append(c("h_walk_size", 1, 1, 2, 12, 0, 0, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 0, cost=3))
    out.append(c("h_walk_size", 1, 2, 5, 3, 0, 0, 100001, 100001, 0, cost=20))
    out.append(c("h_walk_size", 0, 2, 1, 2, 0, 0, 0, 70001, cost=20))
    out.append(c("h_walk_size", 2, 3, 1, 0, 0, 0, 70000, 70001, 0, cost=20))
    out.append(c("h_walk_size", 2, 2, 1, 0, 0, 0, 99998, 0, 70001, cost=20))
    out.append(c("h_walk_size", 3, 2, 1, 0, 0, 0, 99998, 0, cost=20))
    if deep:
        out.append(c("h_walk_size", 1, 3, 5, 3, 0, 0, 100001, 100001, 0, cost=40))
        out.append(c("h_walk_size", 2, 5, 1, 0, 0, 0, 70000, 70001, 0, cost=40))
    # elements of each kind that end before, at and after a block, and none
    E = {0: (0, 2, 2879, 2880, 2881), 1: (0, 3, 359, 360, 361), 2: (0,), 3: (0, 2, 957, 958, 1918), 4: (0, 1, 575, 576, 577)}
    k = 0
    for a in range(3):
        for b in range(5):
            for d in range(5):
                k += 1
                f = lambda t, i: (t, E[t][(k + i) % len(E[t])])
                out.append(c("h_walk_multi", (0, 100, 8192)[k % 3], 0, 3, *f(a, 0), *f(b, 1), *f(d, 3), cost=4))
    for t, e in E.items():
        for n in e:
            for cap in (0, 1, 8192):
                out.append(c("h_walk_multi", cap, 0, 3, 2, 0, t, n, 0, 3, cost=3))
    for cap in (0, 512):
        out.append(c("h_walk_multi", cap, 0, 4, 0, 3000, 3, 900, 4, 600, 1, 400, cost=10))
        for w in (1, 2, 3, 4):
            out.append(c("h_walk_multi", cap, w, 6, 1, 361, 4, 5, 3, 3, 2, 0, 0, 9000, 3, 0, cost=2))
    for fill in (30, 31, 32, 33, 66, 67, 68, 69):
        out.append(c("h_walk_size", 0, 1, 0, 1, 0, fill))
        out.append(c("h_walk_size", 1, 1, 0, 1, 0, fill))
    return out


@prop("C10", "Image pixels are the big-endian values of the data unit, in order",
      "all six BITPIX, primary and extension, 0..=3 axes (12 axes in some cases), up to 12 pixels (thorough: 24), every data byte arbitrary; images of up to 10000 pixels over several blocks whose first and last 96 bytes are arbitrary, from memory and through readers buffering 1..=8192 bytes")
def _(deep):
    out = []
    for ext in (0, 1):
        for bp in range(6):
            for d in ([0], [1, 1], [1, 3], [1, 0], [2, 2, 2], [2, 3, 1], [3, 2, 1, 2], [2, 0, 3]) + (([2, 6, 4], [3, 2, 3, 4]) if deep else ()):
                out.append(c("h_image_pixels", ext, bp, *d))
            for d in ([1, 1500], [2, 70, 40], [12, 2, 1, 1, 1, 2, 1, 1, 1, 1, 2, 1, 3]):
                out.append(c("h_image_pixels", ext, bp, *d))
            for cap in (1, 7, 512, 8192):
                out.append(c("h_image_pixels", ext, bp, 100 * cap + 1, 1500))
                out.append(c("h_image_pixels", ext, bp, 100 * cap + 2, 2, 1))
        out.append(c("h_image_pixels", ext, 0, 2, 100, 100))
    return out


@prop("C11", "Random access to a pixel returns the pixel iteration would return",
      "all six BITPIX, 1..=3 axes, up to 6 pixels, every sequence of up to 3 operations (thorough: 4) of reading any index, an out-of-range index or the next pixel; every data byte arbitrary; images of 1200 pixels at 6 indices; images of up to 4.5e9 pixels (36 GB, all but two pixels fixed) at 7 indices")
def _(deep):
    out = []
    for bp in range(6):
        for d in ([1, 3], [2, 2, 2], [2, 3, 2]):
            p = [0, bp] + d + [0] * (8 - len(d)) + [4 if deep else 3]
            out.append(c("h_image_random", *p, covers=[1, 2, 3]))
        out.append(c("h_image_random", 0, bp, 2, 40, 30, 0, 0, 0, 0, 0, 2, covers=[1, 2, 3]))
        for ext in (0, 1):
            out.append(c("h_image_far", bp, ext, 70000, 70000, 2))
            out.append(c("h_image_far", bp, ext, 3, 100000, 15000))
            out.append(c("h_image_far", bp, ext, 5, 7, 300))
    return out


@prop("C12", "Binary table values are the big-endian contents of their cells, in order",
      "every fixed column type (L X B I J K A E D C M), alone with repeat counts 0, 1, 2, 3 and 9 (17 for bits) and all together, 0..=3 rows (thorough: 5), every data byte arbitrary; up to 300 rows, 150 columns and 3000 elements per cell with arbitrary bytes in the first and last rows and ends of cells; values, rows and raw bytes; TFORMs without count, with leading zeros, with 2 arbitrary characters after the letter")
def _(deep):
    out = []
    for ty in range(11):
        for rep in (0, 1, 2, 3) + ((8, 9, 17) if ty == 1 else (9,)):
            if W[ty] * rep > 40 and not deep:
                continue
            out.append(c("h_table", 99, 0, 0, 0, 2, 0, 2, ty, rep, 3, 1))
            out.append(c("h_table", 99, 0, 0, 1, 2, 0, 2, 3, 1, ty, rep))
    every = []
    for ty in range(11):
        every += [ty, 1]
    for nrows in (0, 1, 2, 3) + ((5,) if deep else ()):
        for fin in (0, 1, 2):
            out.append(c("h_table", 99, 0, 0, fin, nrows, 0, 11, *every))
    for fin in (0, 1, 2):
        out.append(c("h_table", 99, 0, 0, fin, 300, 0, 2, 3, 1, 2, 2, cost=3))
        for n in (212, 220, 300, 350):
            out.append(c("h_table", 99, 0, 0, fin, 2, 0, n, cost=3))
        for ty in range(11):
            out.append(c("h_table", 99, 0, 0, fin, 1, 0, 2, ty, 300, 3, 1, cost=2))
        out.append(c("h_table", 99, 0, 0, fin, 2, 0, 2, 6, 3000, 3, 1, cost=2))
    out.append(c("h_table", 99, 0, 0, 0, 2, 0, 11, 0, 2, 1, 9, 2, 1, 3, 2, 4, 1, 5, 1, 6, 3, 7, 1, 8, 1, 9, 1, 10, 1))
    for ty in range(11):
        for form in (1, 2, 3, 4):
            for r in (1, 2, 12) if ty in (1, 2, 6) or deep else (1, 2):
                out.append(c("h_table", 99, 0, 0, (form + ty) % 2, 2, 100 * form, 2, ty, r, 3, 1))
    return out


W = [1, 0.125, 1, 2, 4, 8, 1, 4, 8, 8, 16]


@prop("C13", "Column selection and row seeking yield exactly the requested cells",
      "every selection of up to 2 columns (thorough: 3) of 3 by index or name, in any order, with repetitions and columns that do not exist; every sequence of up to 2 operations (thorough: 3) of seeking to any row, seeking past the end and reading the next value, before or after the selection; then all remaining values, rows from any row, or the raw bytes; 2 rows (3 in some cases), every data byte arbitrary; 40 rows and 20 columns with 4 to 7 choices of rows and columns; tables of 5 GB and more (rows of 1 MB, and 10^9 rows): the first, second, middle and last row; 1..=4 columns with or without arbitrary distinct names of 1..=6 capitals, digits and underscores, looked up by an arbitrary name of 1..=4 (thorough: 20)")
def _(deep):
    o = []
    sh = [(3, 2, 2, 3, 1, 4, 1), (3, 2, 1, 3, 2, 1, 17), (2, 10, 1, 0, 3), (3, 2, 1, 3, 0, 1, 17)]
    for s in sh:
        for late in (0, 1):
            for fin in (0, 1, 2):
                for k in (99, 0, 1, 2) + ((3,) if deep else ()):
                    for ops in (0, 1, 2) + ((3,) if deep and k in (99, 1) else ()):
                        if late and (k == 99 or ops == 0):
                            continue
                        if not deep and ops * max(k % 99, 1) >= 4 and (late or fin == 1):
                            continue
                        o.append(c("h_table", k, ops, late, fin, 2, 0, *s, covers=[1] + ([2, 3] if ops else []), cost=(k % 99 + 1) * 3 ** ops))
    o.append(c("h_table", 1, 1, 0, 0, 3, 0, *sh[0], covers=[1, 2, 3], cost=9))
    o.append(c("h_table", 1, 1, 1, 1, 3, 0, *sh[1], covers=[1, 2, 3], cost=9))
    for fin in (0, 1, 2):
        o.append(c("h_table", 1, 0, 0, fin, 0, 0, *sh[0]))
        o.append(c("h_table", 1, 1, 0, fin, 40, 0, 3, 2, 2, 3, 1, 6, 9, covers=[1, 2, 3], cost=9))
        o.append(c("h_table", 2, 1, 0, fin, 2, 0, 220, covers=[1, 2, 3], cost=9))
        o.append(c("h_table", 99, 2, 0, fin, 40, 0, 2, 3, 1, 2, 3, covers=[1, 2, 3], cost=9))
    for q in (1, 2, 3, 4) + ((8, 20) if deep else ()):
        for l in ((q, q), (q + 1, q), (q, q + 1, 0), (0, q, q), (max(q - 1, 0), q, q + 1), (101, q, 111), (q + 2, q + 1, q, 0), (0, 0), (q + 1,)):
            o.append(c("h_colname", q, len(l), *l, covers=[1, 2] if q in l else [2]))
    for i, ty in enumerate((0, 2, 3, 4, 5, 7, 8, 9)):
        for fin in (0, 1):
            o.append(c("h_far_table", ty, i % 2, 1000000, 5000, 100000, 16 * (i % 3), fin, (0, 7, 4096)[i % 3], 1, covers=[1, 2]))
            o.append(c("h_far_table", ty, i % 2, 3, 1000000000, 1000, 16 * (i % 3), fin, (0, 7, 4096)[(i + 1) % 3], i // 2 % 2, covers=[1, 2]))
    o += [c("h_colname", 4, 3, 101, 110, 102, covers=[1, 2]), c("h_colname", 5, 4, 1, 110, 101, 4, covers=[1, 2]), c("h_colname", 1, 1, 1, covers=[1, 2])]
    return o


@prop("C14", "Variable length arrays are exactly the elements their descriptors point at",
      "P and Q columns of every element type with arrays of 0..=2 elements anywhere in the heap, with and without a gap before the heap (THEAP), beside fixed columns and other arrays, 1..=2 rows, with seeking, selection, row iteration and raw bytes in between, heap bytes arbitrary; TFORMs without count or size, with leading zeros, with arbitrary text in place of the size; arrays of 300 elements (the ends of the heap arbitrary); arrays at the start, middle and end of heaps of 2.5, 4.3 and 9 GB (P as far as 32-bit offsets reach), with heap gaps up to 5 GB; single P and Q descriptors with entirely arbitrary bits (any count, any offset) over heaps of 2..=17 bytes: values when the array lies in the heap, none otherwise, whether the file ends there or goes on with another HDU")
def _(deep):
    out = []
    for q in (0, 1):
        for ty in range(11):
            k = 11 + 11 * q + ty
            n = 9 if ty == 1 else 1 if ty == 10 and not deep else 2
            for gap in (0, 5):
                out.append(c("h_table", 99, 0, 0, 0, 2, gap, 2, k, n, 3, 1, cost=2))
            out.append(c("h_table", 99, 0, 0, 1, 2, 3, 2, 2, 1, k, n, cost=2))
            for j, heap in enumerate((2500000000, 4294967310, 9000000000)):
                out.append(c("h_far_table", ty, q, 3 + ty, 4, heap, (0, 5, 5000000000)[(j + ty) % 3], (ty + j) % 2, (0, 7, 4096)[(j + q) % 3], (ty + j) // 2 % 2, covers=[1, 2]))
            out.append(c("h_table", 99, 0, 0, q, 2, 4000 * q, 2, k, 300, 2, 1, cost=4))
            for heap in (2, 3, 17) if deep else (3, 17 if W[ty] >= 4 else 6):
                for gap in (0, 2):
                    for row in (0, 1):
                        for tail in (0, 1) if deep else (1 - (row ^ (gap > 0)),):
                            out.append(c("h_descriptor", q, ty, heap, gap, row, tail, covers=[2] if ty not in (1,) and W[ty] > heap else [1, 2]))
    out += [c("h_table", 1, 1, 0, 1, 2, 3, 2, 13, 2, 3, 1, covers=[1, 2, 3], cost=9), c("h_table", 99, 1, 0, 2, 2, 4, 2, 13, 1, 6, 3, covers=[1, 2, 3], cost=5),
            c("h_table", 99, 1, 0, 0, 2, 0, 2, 14, 2, 25, 1, covers=[1, 2, 3], cost=20), c("h_table", 1, 1, 0, 0, 2, 0, 3, 14, 1, 3, 1, 24, 2, covers=[1, 2, 3], cost=20)]
    if deep:
        out += [c("h_table", 99, 2, 0, 0, 2, 0, 2, 14, 2, 25, 1, covers=[1, 2, 3], cost=60), c("h_table", 1, 2, 1, 1, 2, 1, 2, 14, 2, 3, 1, covers=[1, 2, 3], cost=60)]
    for q in (0, 1):
        for ty in range(11):
            for form in (1, 2, 3, 4):
                out.append(c("h_table", 99, 0, 0, (ty + form) % 2, 1, 100 * form + 3 * (form == 2), 2, 11 + 11 * q + ty, 2, 3, 1))
    return out


@prop("C15", "RICE compressed tiles decode to the pixels that were encoded",
      "tiles of 1..=4 pixels (thorough: 6) of 8, 16 and 32-bit images, blocks of 1, 2, 3 and 32 pixels (BLOCKSIZE given or defaulted), every block code (null differences, fs 0..=24, raw), unary prefixes of 0, 1, 7, 8, 9, 20, all remaining bits arbitrary; tiles of 33..=230 pixels in blocks of 8 and 32 whose ends are arbitrary; tiles of entirely arbitrary bytes: 2 pixels in 2..=3 bytes behind the first pixel (thorough: 4), against a bit-by-bit decoder",
      ["Only 32-bit RICE streams (BYTEPIX = 4), the only ones the crate supports (FIXME in src/hdu/header/extension/bintable.rs)."])
def _(deep):
    out = []
    for code in range(27):
        out.append(c("h_tile", 0, 2, 32, 0, 100 + code, 2 if code in (0, 26) else 6, 1, 3, 3, cost=9))
        out.append(c("h_tile", 0, 1, 2, 0, 100 + code, 2, 1, 4 if code < 15 or code == 26 or deep else 3, 4, cost=4))
    for bp in (0, 1, 2):
        out.append(c("h_tile", 0, bp, 32, 0, 5, 3, 1, 3, 3, cost=8))
        out.append(c("h_tile", 0, bp, 1, 3, 3, 2, 1, 3, 3, cost=9))
        out.append(c("h_tile", 0, bp, 3, 0, 5, 2, 1, 4, 4, cost=9))
        out.append(c("h_tile", 0, bp, 2, 13, 3, 2, 2, 2, 2, 2, 1, cost=9))
    for g in ((1, 230, 230), (2, 100, 2, 100, 1), (2, 33, 2, 33, 2), (1, 65, 64)):
        for bs in (8, 32):
            out.append(c("h_tile", 0, 2, bs, 0, 200, 3, *g, cost=2))
            out.append(c("h_tile", 0, 1, bs, 0, 100, 1, *g, cost=2))
    for code in list(range(0, 9)) + [16, 25, 26, 27, 31]:
        for k in (2, 3, 4) if deep else (2, 3):
            out.append(c("h_rice_any", 2, 32, k, code, covers=[1, 2] if code < 9 and 5 + 2 * max(code, 0) <= 8 * k and code else [2] if code else [1], cost=5))
    out.append(c("h_rice_any", 1, 32, 3, 99, covers=[1, 2], cost=12))
    out.append(c("h_rice_any", 2, 1, 2, 3, covers=[1, 2], cost=12))
    if deep:
        out += [c("h_rice_any", 2, 1, 3, 2, covers=[1, 2], cost=40), c("h_rice_any", 3, 2, 3, 1, covers=[1, 2], cost=60), c("h_rice_any", 2, 32, 9, 26, covers=[1, 2], cost=30), c("h_tile", 0, 2, 2, 0, 27, 2, 1, 3, 3, cost=60), c("h_tile", 0, 2, 3, 0, 5, 2, 1, 6, 6, cost=90)]
    return out


@prop("C16", "Tile compressed images yield every pixel of every tile, border tiles included",
      "GZIP_1 and GZIP_2 (stored deflate blocks, 1..=many per tile) and RICE_1 tiles of 8, 16 and 32-bit images of 1..=4 axes up to 5x3 and 2x3x2, with up to 400 tiles and tiles of up to 3000 pixels (the last 2 arbitrary) in some cases, tiles that do and do not divide the axes, default row tiling, P and Q descriptors, heap in order or reversed, with and without a gap before it, other columns (of several, of no value, bits) before the compressed data; every pixel arbitrary",
      ["Only tiles of 32-bit elements, the only ones the crate supports (FIXME in src/hdu/data/bintable/tile_compressed/pixels.rs).", "Deflate streams with Huffman codes are outside the bound: inflating is the flate2 crate's business."])
def _(deep):
    out = []
    geo = [(1, 1, 1), (1, 5, 2), (1, 4, 2), (1, 3, 0), (2, 2, 2, 0, 0), (2, 5, 3, 2, 2), (2, 3, 2, 3, 2), (2, 4, 3, 5, 2), (3, 2, 3, 2, 2, 2, 1), (3, 2, 2, 2, 0, 0, 0), (3, 3, 2, 3, 2, 2, 2)]
    for cmp in (1, 2):
        for bp in (0, 1, 2):
            for g in geo:
                out.append(c("h_tile", cmp, bp, 32, 0, 0, 0, *g))
            out.append(c("h_tile", cmp, bp, 32, 0, 0, 0, 4, 2, 2, 2, 2, 2, 1, 2, 1, cost=2))
            out.append(c("h_tile", cmp, bp, 32, 0, 0, 0, 4, 3, 1, 2, 3, 2, 1, 1, 2, cost=2))
            out.append(c("h_tile", cmp, bp, 32, bp, 0, 0, 2, 100, 3, 100, 1, cost=2))
            out.append(c("h_tile", cmp, bp, 32, bp + 4, 0, 0, 2, 20, 20, 1, 1, cost=4))
            out.append(c("h_tile", cmp, bp, 32, bp, 1000, 0, 1, 3000, 3000, cost=4))
            for lay in range(16):
                out.append(c("h_tile", cmp, bp, 32, lay, 3 if lay & 1 else 0, 0, *geo[5 if bp == 2 or deep else 1]))
    for bp in (0, 1, 2):
        for g in geo:
            out.append(c("h_tile", 0, bp, 32, 0, 105, 1, *g, cost=3))
        for lay in range(16):
            out.append(c("h_tile", 0, bp, 2, lay, 126 if lay & 2 else 105, 1, *geo[1 if not deep else 5], cost=2))
    return out


@prop("C17", "Quantized floating point images are scaled, dithered and blanked as specified",
      "32 and 64-bit floating point images in GZIP_1, GZIP_2 and RICE_1 tiles with every 32-bit quantized value, 1..=3 tiles of 1..=2 pixels, scale and zero columns (powers of two, 3 pairs, E and D), no dithering and both subtractive ditherings, ZDITHER0 absent, 1, 2, 5000, 9999, 10000, ZBLANK absent, keyword or column; tiles of 9990 pixels (only the last one arbitrary) running over the end of the random list",
      ["The result is compared with f32 arithmetic up to a rounding difference of 2^-20 of the magnitude plus 2^-10 of the scale.", "The dithering sequence is that of the standard as CFITSIO implements it: 0-based start (row - 1 + ZDITHER0 - 1) mod 10000."])
def _(deep):
    out = []
    for cmp in (0, 1, 2):
        for bp in (4, 5):
            for q in (0, 1):
                for blank in (0, 1, 2):
                    if not deep and (q == 1 and blank == 0 or bp == 5 and blank == 1 or cmp == 2 and q == 1):
                        continue
                    out.append(c("h_tile_float", cmp, bp, q, 0, blank, 0, 1 if blank < 2 else 2, 1, covers=[1] + ([2] if blank else []), cost=6))
            for q in (2, 3):
                for z0 in (0, 1, 2, 5000, 9999, 10000):
                    blank = z0 % 3
                    out.append(c("h_tile_float", cmp, bp, q, z0, blank, z0 % 16, 2, 2, covers=[1] + ([2] if blank else []) + ([3] if q == 3 else []), cost=4))
    out.append(c("h_tile_float", 1, 4, 2, 9998, 1, 0, 3, 1, covers=[1, 2]))
    out.append(c("h_tile_float", 1, 4, 2, 9999, 0, 0, 1, 9990, covers=[1, 4], cost=20))
    out.append(c("h_tile_float", 1, 5, 3, 10000, 0, 0, 1, 9990, covers=[1, 3, 4], cost=20))
    out.append(c("h_tile_float", 1, 5, 2, 7, 1, 0, 1, 9990, covers=[1, 2, 4], cost=20))
    return out


@prop("C18", "ASCII tables give the declared columns and exactly the bytes of the data unit",
      "tables of 0..=3 rows (thorough: 4) of 1..=12 characters (one of 300 x 30 bytes), every data byte arbitrary; 0..=3 columns of each format (A I F E D) with arbitrary TBCOL, width and decimals of 1..=3 digits, 0..=1 trailing blanks in TFORM, columns without TFORM or TBCOL or with an unknown letter; tables of 12 and 120 columns (first and last arbitrary); data read to the end, in part, row by row or not at all before advancing")
def _(deep):
    out = []
    for w in (1, 2, 12):
        for nr in (0, 1, 2, 3) + ((4,) if deep else ()):
            for how, k in ((0, 0), (1, 1), (1, 2), (2, 0), (3, 0)):
                if how == 1 and k > w * nr:
                    continue
                out.append(c("h_ascii", w, nr, how, k, 1, 1, 1, 1, 0))
    for kind in range(8):
        out.append(c("h_ascii", 8, 1, 0, 0, 2, 2, 1, 1, kind, cost=2))
        out.append(c("h_ascii", 8, 1, 3, 0, 1, 1, 1, 2, kind, 2, cost=3))
        out.append(c("h_ascii", 8, 1, 0, 0, 1, 2, 2, 2, 1, 10 + kind, cost=3))
    for kind in range(5):
        out.append(c("h_ascii", 8, 1, 3, 0, 3, 3, 2, 1, kind, cost=5))
    out.append(c("h_ascii", 9, 2, 0, 0, 1, 1, 1, 3, 0, 2, 4, cost=3))
    out.append(c("h_ascii", 9, 0, 0, 0, 1, 1, 1, 0))
    for n in (9, 12, 120):
        for how, k in ((0, 0), (1, 700), (2, 0), (3, 0)):
            out.append(c("h_ascii", 300, 30, how, k, 2, 1, 1, n, cost=2))
    if deep:
        out += [c("h_ascii", 9, 1, 0, 0, 2, 2, 2, 4, 0, 1, 2, 3, cost=20), c("h_ascii", 30, 4, 1, 47, 2, 1, 1, 2, 0, 4, cost=5)]
    return out


@prop("C19", "An HDU is what its first card says; unusable headers are errors ending the list",
      "synchronous and asynchronous reading; the first card of the file with 2..=4 arbitrary printable characters at every position of keyword, indicator and value; XTENSION values of 8 characters with 2 (quick) to 8 arbitrary printable characters; each mandatory keyword (BITPIX, NAXIS, NAXISn, PCOUNT, GCOUNT, TFIELDS) of every HDU kind as an arbitrary number of 1..=3 digits with and without sign, absent, a string, a logical, a real or without value; first cards that are missing, preceded by another card or followed at 7 places by a further SIMPLE or XTENSION card of each kind",
      ["Refused means: the HDU list yields an error and then ends.", "PCOUNT and GCOUNT of image extensions are left out: the crate does not interpret them."])
def _(deep):
    out = []
    for a in (0, 1):
        for pos in range(0, 29, 1):
            if 11 <= pos < 27 and not deep and pos % 4:
                continue
            out.append(c("h_kind", a, 0, 0, pos, 2, covers=[1, 2]))
        out.append(c("h_kind", a, 0, 0, 0, 4, covers=[1, 2]))
        out.append(c("h_kind", a, 0, 0, 4, 4, covers=[1, 2]))
        for t in range(4):
            for pos in range(0, 7):
                out.append(c("h_kind", a, 1, t, pos, 2, covers=[1, 2]))
            out.append(c("h_kind", a, 1, t, 0, 8, covers=[1, 2]))
        for kind in range(4):
            for key in range(7):
                if kind == 0 and key >= 4 or kind == 1 and key >= 4:
                    continue
                for how in (1, 2, 3, 4, 5):
                    out.append(c("h_mandatory", a, kind, key, 1, 0, how, covers=[2]))
                for nd in (1, 2, 3):
                    for sign in (0, 1):
                        if key == 6 and nd > 1 or key in (2, 3) and nd == 3 and not deep:
                            continue
                        out.append(c("h_mandatory", a, kind, key, nd, sign, 0, covers=[], cost=nd))
        for ext in (0, 1):
            for first in (0, 1, 2, 3):
                for stray in (0, 1, 2, 3, 4):
                    for at in (99, 0, 1, 2, 3, 5, 7, 20):
                        lead = 9 if (at == 0 and stray == 2 or first == 3 and at != 0) and ext else 0
                        if lead or at == 99 and stray:
                            continue
                        kind = (stray if at == 0 else 0 if first == 0 else 9) if ext else (3 if at == 0 and stray == 3 else 9 if at == 0 or first else 3)
                        good = kind in (0, 1) if ext else kind == 3
                        out.append(c("h_first", a, ext, first, stray, at, covers=[1] if good else [2]))
    return out


@prop("C20", "Asynchronous reading yields the file's HDUs and values whatever the reader does",
      "two HDUs (image of any BITPIX, then an image, binary or ASCII table); readers that hand out the file in chunks of one fixed size or of any size up to the buffer, and stop, not ready 1..=2 times, at 1..=2 arbitrary positions in windows of up to 256 bytes over headers, data, padding and block boundaries; buffers of 1..=8192 bytes; all, some or none of the values consumed before advancing; data streams abandoned while not ready; every data byte arbitrary; header by header and card by card the same as the synchronous reader for seven kinds of file, some with odd cards (complex, unclosed, invalid, commentary, continued, HIERARCH), with one arbitrary byte in any of 4 positions of any card, or cut at 8 places",
      ["The reader keeps the AsyncRead contract; the buffering is futures::io::BufReader."])
def _(deep):
    out = []
    W_ = 128 if deep else 64
    for kind in (0, 1, 2):
        for bp in range(6):
            for k in (99, 1):
                out.append(c("h_async", kind, bp, 3, k, 8192, 0, 0, 0, 0, 1 if bp == 2 and k == 1 else 7, 0, 0))
    st = []
    # over the end of header 1, the data of HDU 1, its padding, the start of header 2, the data of HDU 2
    for base in (10000, 20000):
        st += [base, base + 40]
    st += [30000 + 40, 0, 2880]
    for i, s in enumerate(st):
        for bp in (0, 2, 5) if deep else (2,):
            for k in (99, 1, 0, 98):
                out.append(c("h_async", i % 3, bp, 3, k, (8192, 64, 16, 7)[i % 4], 1, s, W_, 1 + i % 2, 0, 0, 0, covers=[1, 2], cost=4))
    for bp in range(6):
        out.append(c("h_async", bp % 3, bp, 2, 99, 8192, 1, 10040, 24, 1, 0, 0, 0, covers=[1, 2], cost=3))
        out.append(c("h_async", bp % 3, bp, 2, 98, 8192, 2, 10040, 16, 1, 0, 0, 0, covers=[1, 2], cost=6))
    for kind in (0, 1, 2):
        for s in (10040, 20040):
            out.append(c("h_async", kind, 1, 2, 99, 8192, 2, s, 16, 2, 0, 0, 0, covers=[1, 2], cost=6))
        for fill in (31, 32, 33, 68):
            out.append(c("h_async", kind, 1, 2, 99, 100, 0, 0, 0, 0, 0, fill, 0))
        out.append(c("h_async", kind, 1, 2, 99, 8192, 0, 0, 0, 0, 0, 0, 1))
        out.append(c("h_async", kind, 1, 2, 0, 8192, 0, 0, 0, 0, 0, 0, 1))
    for n in (0, 1, 1440, 1441, 3000):
        for k in (0, 99) if n < 100 or deep else (0,):
            out.append(c("h_async", 0, 1, n, k, 8192, 0, 0, 0, 0, 0, 0, 0, cost=2))
    # the same headers as the synchronous reader
    for t in range(7):
        for fill in (0, 17, 40):
            out.append(c("h_parity", t, 999, 0, 0, 99, 0, 0, fill, 0))
        for cut in (1, 80, 81, 2720, 2800, 2880, 2881, 5759, 5760):
            out.append(c("h_parity", t, 999, 0, 0, 99, 0, 0, 0, cut, covers=[]))
    for odd in range(12):
        for pos in (8, 9, 10, 11, 12, 14, 20, 79) if not deep else list(range(8, 30)) + [79]:
            if odd == 9 and pos < 17: pos += 15  # not in the keyword itself
            out.append(c("h_parity", (0, 1, 2, 3, 5)[(odd + pos) % 5], 999, 0, 0, odd, pos, 1, (0, 20)[pos % 2], 0, cost=3))
    for t in range(7):
        for k in range(7 if t == 0 else 6 if t == 1 else 12):
            for pos in (8, 10, 12, 29) if not deep else (8, 9, 10, 11, 12, 13, 28, 29, 30):
                out.append(c("h_parity", t, k, pos, 1, 99, 0, 0, 0, 0, covers=[], cost=2))
    return out


@prop("C21", "Damaged files give errors or fewer values, never a panic or an endless loop",
      "seven kinds of file (primary and extension image, binary table with variable length arrays, ASCII table, GZIP integer and floating point tiles, RICE tiles); in each, one arbitrary byte (all 256 values) in the keyword, the value indicator or any of 5 (integers, written with 20 digits; thorough: 7) or 5 (other values) positions of the value of any one header card, or any one data byte arbitrary (not the flags and block types of gzip streams, which only concern the flate2 crate), or the data unit cut after any byte, or the header cut at 8 places; read by values, rows, random access, raw bytes and asynchronously",
      ["Memory allocation never fails: that a header may announce sizes the machine cannot hold is outside."])
def _(deep):
    out = []
    N = {0: (7, 12), 1: (6, 5), 2: (13, 31), 3: (12, 12), 4: (18, 74), 5: (25, 106), 6: (20, 42)}
    INT = {0: (1, 2, 3, 4), 1: (1, 2, 3, 4, 5), 2: (1, 2, 3, 4, 5, 6, 7, 12), 3: (1, 2, 3, 4, 5, 6, 7, 8, 10), 4: (1, 2, 3, 4, 5, 6, 7, 13, 14, 15, 16, 17), 5: (1, 2, 3, 4, 5, 6, 7, 13, 14, 15, 16, 17, 23, 24), 6: (1, 2, 3, 4, 5, 6, 7, 12, 13, 14, 15, 17, 19)}
    for t, (nc, nd) in N.items():
        for how in (0, 1, 2, 3):
            if t in (4, 5, 6) and how in (1, 2):
                continue
            for k in range(nc):
                wins = ([10, 12, 16, 22, 25, 28, 29] if deep else [10, 16, 25, 28, 29]) if k in INT[t] else [10, 11, 12, 13, 14]
                for pos in (wins if deep or how == 0 else wins[-2:]) + ([0, 8] if deep or how in (0, 3) else []):
                    out.append(c("h_robust", t, how, k, pos, 1, nd + 1, 0, 0, 0, cost=2))
            for keep in range(1, nd + 1):
                if not deep and keep > 12 and keep % 5:
                    continue
                out.append(c("h_robust", t, how, 999, 0, 0, keep, 0, 0, 0))
            for d in range(1, nd + 1):
                if not deep and (how or d > 40) and d % 3:
                    continue
                # flags and block type of the gzip streams: left to the flate2 crate
                if t in (4, 5) and (d - (17 if t == 4 else 49)) % 29 in (3, 10):
                    continue
                out.append(c("h_robust", t, how, 999, 0, 0, 0 if t < 4 else nd + 1, d, 1, 0, cost=2))
            for hcut in (1, 79, 80, 81, 2000, 2800, 2879, 2880):
                out.append(c("h_robust", t, how, 999, 0, 0, 0, 0, 0, hcut))
    return out


@prop("C22", "A gzipped file reads exactly like the file it holds, or opening it is an error",
      "GzReader over a file of an empty primary HDU and an image of one block in each BITPIX whose last 4 or 8 bytes are arbitrary; uncompressed, gzipped in stored blocks of various sizes (with and without extra, name and comment fields), gzipped in two members split at several places, cut at several places, or with one byte of the data (any value) or of the trailer replaced by any other value; read directly and through buffered readers",
      ["The deflate streams hold stored blocks (with symbolic content); Huffman-coded blocks are left to the flate2 crate.", "FITSFile::open's opening of the file (std::fs) is outside; what it calls on the opened file is inside."])
def _(deep):
    out = []
    for bp in range(6):
        out.append(c("h_gz", 0, 0, 0, 0, 0, bp))
        out.append(c("h_gz", 1, 0, 65535, 0, 0, bp))
    for cap in (1, 2, 300, 512, 8192, 20000) if deep else (2, 512, 8192):
        out.append(c("h_gz", 0, 0, 0, 0, cap, 2))
        out.append(c("h_gz", 1, 0, 4000, 0, cap, 2))
    for fl in (4, 8, 12, 16, 20, 24, 28):
        out.append(c("h_gz", 1, 0, 65535, fl, 0, 1))
    for chunk in (100, 333, 1000, 2880, 5000, 8639, 8640):
        out.append(c("h_gz", 1, 0, chunk, 0, 0, 2))
    for k in (16, 160, 2880, 4000, 5760, 8000, 8624, 8639) if deep else (16, 2880, 4000, 8639):
        for fl in (0, 28):
            out.append(c("h_gz", 2, k, 65535, fl, 0 if fl else 8192, 2))
    for k in list(range(1, 16)) + [100, 2000, 5000, 8640]:
        out.append(c("h_gz", 3, k, 3000, 0, 0, 2))
    for k in list(range(1, 13)) + ([13, 14, 15, 16, 20] if deep else []):
        out.append(c("h_gz", 4, k, 65535, 0, 0, 2, cost=3))
    return out


@prop("C23", "FITS images decode through the image crate as the right picture",
      "the first image of a file (primary, extension, after a table and an empty image, GZIP tile compressed), every BITPIX, 2 or 3 axes (third of 1 or 3; other shapes are errors), widths and heights of 1..=3 (thorough 4), five BSCALE/BZERO settings; all pixel bytes",
      ["For 32 and 64-bit pixels the brightness is compared with the exact formula within 2^-20 relative and 2^-28 absolute (rounding is not part of the property); NaN for NaN."])
def _(deep):
    out = []
    for lay in (0, 1, 2, 3):
        for bp in range(6):
            if lay == 3 and bp == 3:
                continue
            for ax in range(7):
                if lay == 3 and ax == 6:
                    continue
                for sc in range(5):
                    if ax > 2 and sc:
                        continue
                    if not deep and (lay + ax) % 2 and sc > 1:
                        continue
                    w, h = ((2, 2), (3, 1), (1, 3), (2, 1), (1, 1))[(sc + ax) % 5] if not deep else ((2, 2), (3, 2), (2, 4), (4, 1), (1, 2))[(sc + ax) % 5]
                    if ax == 4:
                        h = 1
                    if ax == 2 and (lay == 3 or sc > 2 and not deep):
                        w, h = (2, 1) if lay else (1, 2)
                    out.append(c("h_decode", lay, bp, sc, ax, w, h, cost=4))
    return out


@prop("C24", "Short, interrupted or failing reads never change the HDUs and values read",
      "synchronous readers over a file of an empty primary HDU, one HDU (image of any BITPIX, binary table, table with P/Q arrays, ASCII table, GZIP and RICE tiles) and a last image; the reader hands out pieces of a fixed size of 1..=4000 bytes, or stops at 1..=2 arbitrary positions of windows of up to 128 bytes over the first header, the start and end of the second header, the data and their end and the next header: the read there is short, interrupted once, or fails for good; direct and buffered readers (1..=8192 bytes); data bytes arbitrary",
      ["The reader keeps the Read and Seek contracts: seeking works even where reading fails."])
def _(deep):
    out = []
    WL = {0: 64, 1: 64, 2: 48, 3: 128, 4: 80, 5: 64}
    for kind in range(6):
        bps = range(6) if kind == 0 else (range(4) if kind == 5 else (range(8) if kind in (3, 4) else (0,)))
        for bp in bps:
            for chunk in (1, 2, 3, 7, 79, 81, 1000, 2879, 2881, 4000) if deep else (1, 3, 79, 2879):
                for cap in (0, 100):
                    if chunk < 3 and bp not in (0, 2) and not deep:
                        continue
                    out.append(c("h_reader", kind, bp, 0, chunk, 0, 0, 0, cap))
            for mode in (0, 1, 2):
                for win in (0, 1, 2, 3, 4):
                    if not deep and win in (0, 1, 4) and bp != 2 * (kind == 0):
                        continue
                    for cap in (0, 8192, 7, 1) if deep else (0, (8192, 64, 7)[(bp + mode + win) % 3]):
                        wl = WL[kind] if kind != 5 or deep else 40
                        out.append(c("h_reader", kind, bp, mode, 0, 1, win, wl if win == 2 else 8 if win == 3 else 24, cap, covers=[2] if mode == 2 and win in (0, 1) else [1], cost=8 if kind == 5 else 2))
            if bp in (0, 2):
                for mode in (0, 1):
                    if kind == 5 and not deep:
                        continue
                    out.append(c("h_reader", kind, bp, mode, 0, 2, 2, (24 if kind == 5 else 44) if not deep else 60, 0, cost=20))
                    out.append(c("h_reader", kind, bp, mode, 64, 1, 2, 40, 0, cost=4))
    return out
