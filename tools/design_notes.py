# per property: (oracle, why model checking reaches what tests cannot, bounds: quick (thorough))
N = {
'C01': ('a cursor (position, bytes, endianness) interpreted in the check', 'the existing tests make single calls; buffering errors need a history (peek at the end of a buffer, seek back into it, then a short read)', 'call sequences of length 3 (thorough 4) over all source kinds and short data; exact alphabets at the head of each scenario'),
'C02': ('a byte vector', 'counts and contents must agree after partial writes in the middle of a history', 'call sequences of length 3 (4) over all sinks and small capacities'),
'C03': ('decoding of the same bytes from memory', 'which read call is short or interrupted is a schedule that tests never vary', 'one fault (thorough two) at every read call, the buffer sizes, read limits and tails listed in `codecs.rs`'),
'C04': ("no panic, no red zone touched, no layout mismatch, no hang, peak memory ≤ 64·(w+32)(h+32) + 1100·input + 22 MiB (the reader's `peek_at` may reserve up to 20 MiB)", 'the space of damaged files is explored completely at distance one (and partly two) from every kind of file', 'distance one from every corpus file (byte sets, fields, cuts), adjacent pairs, two-file splices, and all inputs of 2 bytes (plus one more, chosen from a set or, thorough, all 256) behind a signature; files of one size (thorough two sizes); positions to 220 for pairs in the quick tier'),
'C05': ('pixels of the intact file', 'every cut and every failing read call, not one', 'every length and every read call of every lossless corpus file of two (three) sizes'),
'C06': ('what decode delivers', 'options × modes × buffer sizes is a product the tests do not form', 'every corpus file × strip/alpha options × the buffer sizes around the announced one'),
'C07': ("comparison of the header's dimensions with the limits", 'limits and dimensions on each side of each other for every format', 'dimensions and limits around each other, announced dimensions to 70000'),
'C08': ('a fresh decoder', 'histories of queries', 'call sequences to length 2 (3)'),
'C09': ('samples as the PNG specification defines, from `refs/png.rs`, a reference writer', 'filter × type × depth × interlace × width × chunk split is a product of code paths (row functions, SIMD tails, pass geometry)', 'widths to 10 (20), heights to 9 (12), all filter sequences of 4 (5) rows, single filters to the wider widths, IDAT splits at every byte, every ancillary chunk'),
'C10': ('the documented transformation of the reference samples', 'combinations of options interact (strip × alpha × endianness × call used)', 'dimensions to 9x5 (33x2), every combination of options'),
'C11': ('the frames the file was built from; APNG canvas rules', 'frame histories: state kept between frames is what breaks', 'up to 3 (4) frames; canvases of 3x3 for composition'),
'C13': ('the bytes the tokens stand for', "table reuse across blocks, distances across the output buffer's growth, bit-buffer refills at every alignment", 'token sequences to length 3 (4) after 0–2 literals, all lengths × the boundary distances, block sequences to 4 (5), every alignment of stored blocks'),
'C14': ('a strict RFC 1951 reader that says valid, invalid or unspecified', 'every single-bit error of a stream, not the few a test writes', 'one damaged place (thorough a second one), limits around the true size, all inputs of at most 2 bytes (and 3 over an alphabet)'),
'C15': ('a QOI coder written from the specification', 'the index table and previous-pixel state are a history', 'opcode sequences to 4 (5), encoder pixel sequences to 5 (6) over an alphabet, every operand of every opcode'),
'C17': ('the samples the file was built from; an independent parser for encoder output', 'header grammar: whitespace, comments, order', 'dimensions to 10 (17), the header alphabets of `ppm.rs`'),
'C18': ('pixels the file was built from; an RLE interpreter', 'row padding × depth × orientation × palette size × masks; RLE command sequences', 'widths to 18 (40), heights to 4 (8), run-length command sequences to 5 (7)'),
'C19': ('planes the file was built from', 'mode × depth × channels × compression × section lengths', 'dimensions to 6 (12), packbits command sequences for rows of 5 (7) bytes'),
'C20': ('an RGBE interpreter written from the definition', "scanline codings of the same row are many; the encoder's choices must decode the same", 'rows of 8 (9) pixels cut into at most 4 (5) codes per channel, header sequences of 3 (4) lines'),
'C21': ('the file layout of the format', 'all byte values, all calls, all buffer sizes', 'dimensions to 9 (24)'),
'C22': ('baseline decoding of the same coefficients (identical), double precision IDCT and colour conversion (bounded)', 'the same picture can be coded in a huge number of ways; the decoder has separate code for each', 'dimensions to 10 (40) for accuracy, fixed sizes around the MCU boundaries for codings, restart intervals 0–9 and 300, every script of the bound'),
'C23': ('decoding with intrinsics off', 'vector tails and row lengths', 'PNG widths to 70 (140) and the JPEG layouts of C22'),
'C24': ('the image given to the encoder', 'colour space × depth × size × pattern × route', 'dimensions to 9 (20) and the sizes around block and run lengths'),
'C25': ('the bytes of an undisturbed encoding', 'every byte and call at which a sink can refuse', 'every byte of outputs up to 400 bytes (thorough all), every call, every kind of refusal'),
'C26': ('jxl-oxide; the single-thread encoding', 'thread orders; run lengths; group boundaries', 'run lengths to 60 and selected ones to 600 (all to 700), dimensions around 1, 8, 256, 2048, orders of the threads of 2–8 group images, one preemption at the first 24 (all) allocations of each thread'),
'C27': ('a plain vector of bytes and a type', 'histories under a checking allocator', 'operation sequences to 4 (5)'),
'C28': ('a plane model', 'routes × colour spaces × depths', 'dimensions to 4 (7), widths to 140 (300)'),
'C29': ('documented formulas in double precision', 'every ordered pair of spaces at each depth, vector tails', '5–8 (14–17) values per channel, widths to 40 (100), conversion sequences to 3 (4)'),
'C30': ('proportional scaling', 'all values rather than some', 'all 8- and 16-bit values, sequences to 5 (7)'),
'C31': ('a model of the documented steps', 'histories of chaining and advancing with failures at every position', 'histories to 6 (7)'),
'C32': ('a signature table', 'all prefix lengths and alterations', 'all two-byte beginnings, every altered byte of every prefix'),
'C33': ('an index map', 'all small dimensions with distinct samples and sequences of operations', 'dimensions to 26 (41) alone, to 4 (5) for every crop, sequences to 3 (4)'),
'C34': ('formulas in double precision', 'every value at every depth', 'all 8- and 16-bit values, widths to 70 (140)'),
'C35': ('definition over replicated borders', 'all tiny images over an alphabet, all small dimensions and radii', 'all images of the tiny sizes over 2 (3) levels, dimensions to 12 (22) with distinct samples'),
'C36': ('formulas in double precision', 'positions, overlaps and histories of (un)premultiplication', 'all 65536 pairs of 8-bit samples; grids of values at 16 bits and float; histories to 4 (6)'),
'C37': ('a separable resampler in double precision', 'all source/target pairs per method', 'sources to 4 (7) plus 13, 16, 64; targets to 8'),
'C38': ('the operation run on each channel alone', 'schedules', 'all orders of up to 6 threads (more when thorough), one preemption at any allocation'),
'C39': ('row/column definition of Exif orientations', 'records × byte orders × histories', 'dimensions to 7 (18), histories to 3 (4)'),
'C40': ('the Rust interface', 'histories of calls with faults', 'call histories to 2 (3) over all operations after creation, every cut, every byte of a set at every position'),
'C41': ('operations applied through the Rust interface', 'orders and placements of arguments', 'operation sequences to 2 (3) in several placements, all sets of up to 3 outputs, settings and failures listed in `cli.rs`'),
'C42': ('a snapshot of the image', 'operations × meaningless parameters × sequences', 'sequences of two operations (three on 8-bit RGBA)'),
'C43': ('what was stored', 'orders and positions of chunks', 'sequences of 3 (4) PNG chunks or JPEG segments at every position, profiles of up to 4 (5) segments in every order and of 2, 100, 254, 255'),
'C44': ('a canvas model', 'frame histories', 'up to 3 (5) frames'),
'C45': ('the profile library (moxcms) applied to the interleaved pixels of each frame; a second conversion from the recorded profile has to be a near no-op (not for grayscale to DCI-P3, where the library profile holds two tone curves)', 'profile pairs, damaged profiles and chains of transformations: the existing test is empty', '11 source profiles x 5 destinations x 8 colour spaces x 3 depths; chains of up to 3 (4)'),
'C46': ('the pixels that were written losslessly with image-webp and zune-jpegxl', 'no test reads these formats through Image::read; limits and truncations are corner cases of the adaptors', 'images up to 300 pixels wide, all metadata combinations, every truncation and 4 (8) damages of every byte of 36 files'),
'C47': ('a record of the option values; valid files under the default options; the checksum and scan count rules', 'combinations of setters and files are too many for examples', 'sequences of up to 3 (4) setters with all their values; every chunk of 8 PNG files; up to 70 scans'),
'C49': ('the same image encoded to and decoded from memory', 'all files, ways of opening and saving; sequences of calls over a model of the directory', 'the corpus, 10 images per writable format, histories of 2 (3) calls out of 35 on 5 names'),
'C50': ('the image converted as documented (within 6 of 255 at qualities 95 and 100), the markers of the file, the fields put in', 'JPEG was not written by any test; offsets in EXIF blocks go wrong only for values longer than four bytes', 'dimensions 1 to 18 (34) squared; every quality on 60 images and options; 1-pixel-high images of 65533 to 131073; every subset of 9 fields in three directories, written twice (three times)'),
'C51': ('the oracles of those checks, unchanged', 'the byte stream of this build is a different implementation, which no existing test executes', 'the bounds of C01, C02, C09-C11, C13-C15, C17-C19, C21 and C22; HDR and the layers above always use the standard library'),
'C48': ('the same operation called through the Rust interface', 'sequences of calls and damaged files', '1 to 2 (3) calls out of 34 on 5 images; the corpus plus JPEG XL and WebP; calls which report an error to JavaScript abort natively and are left out'),
}
