# One entry per property: id, title, statement, over, quantifier text, why, files, mechanisms, feature, level, technique, note
P = []
def p(id, title, statement, over, qtext, why, files, mech, feature, level, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, feature=feature, level=level, technique=technique, note=note))

MC = "model_checking"
FE = "fault_enumeration"
SL = "stateless exhaustive exploration of the real code (choice-tree DFS) against an executable reference model"
FI = "exhaustive fault-point enumeration on the real code (choice-tree DFS) with a reference verdict"
N = "Exhaustive within the stated alphabet and bounds; every explored trace runs on the implementation itself, so no model/code gap. Trusts the reference model in mc/src and the explorer."

p("C01", "The byte reader behaves as a cursor over its bytes for every call history",
  "For every sequence of reads, peeks, skips, rewinds, seeks and position queries, over every supported kind of source, the reader returns exactly what a plain cursor over the same bytes would, in the requested endianness. A call that fails reports an error instead of inventing data, and a peek never moves the position, whether it succeeds or fails.",
  ["histories", "configurations"], "all operation sequences up to the depth bound over slice, buffered-file-like and raw sources of small lengths, including reads that cross the end",
  "no existing test exercises the reader at all; correctness depends on the operation history and on where it hits the end of data",
  ["crates/zune-core/src/bytestream/reader.rs", "crates/zune-core/src/bytestream/reader/std_readers.rs", "crates/zune-core/src/bytestream/reader/no_std_readers.rs"],
  [("reader wrapper", "crates/zune-core/src/bytestream/reader.rs"), ("cursor over memory", "crates/zune-core/src/bytestream/reader/no_std_readers.rs")],
  "core", MC, SL, N)
p("C02", "The byte writer stores exactly what was written, for every call history and sink",
  "For every sequence of byte, slice and integer writes into a growable buffer or a fixed-size buffer, the sink ends up holding the written bytes in order and endianness, and while no write has failed the byte count reported equals the number stored. An error-reporting write that does not fit, or that the sink refuses, returns an error.",
  ["histories", "fault_sequences"], "all write sequences up to the depth bound, into growable, fixed and failing sinks of every small capacity",
  "no existing test covers the writer; losing bytes depends on the capacity and on the history of preceding writes",
  ["crates/zune-core/src/bytestream/writer.rs", "crates/zune-core/src/bytestream/writer/std_writers.rs", "crates/zune-core/src/bytestream/writer/no_std_writers.rs"],
  [("writer wrapper", "crates/zune-core/src/bytestream/writer.rs")], "core", MC, SL, N)
p("C03", "A decoded image does not depend on how its bytes are delivered",
  "For every supported file, decoding from memory, from a buffered reader of any buffer size, or from a reader whose reads are arbitrarily short or are interrupted gives the same pixels, dimensions and metadata. Bytes after the end of the image do not change the result.",
  ["inputs", "fault_sequences", "configurations"], "every corpus file of every format under every short-read schedule up to the deviation bound and a range of buffer sizes",
  "existing tests always decode from one complete in-memory slice",
  ["crates/zune-core/src/bytestream/reader.rs", "crates/zune-image/src/image.rs", "crates/zune-image/src/codecs.rs"],
  [("reader refills", "crates/zune-core/src/bytestream/reader/std_readers.rs")], "codecs", FE, FI, N)
p("C04", "Damaged input never crashes, corrupts memory or hangs a decoder",
  "For every byte string, each decoder returns either an image or an error, in bounded time and with memory bounded by the announced size, without panicking, aborting or touching memory outside its buffers.",
  ["inputs"], "every truncation, every single-bit flip, every byte substitution from an adversarial set and every header-field boundary value, over a seed file of each format and mode; all tiny inputs",
  "existing tests decode well-formed files; crashes live on malformed field combinations",
  ["crates/zune-png/src/decoder.rs", "crates/zune-jpeg/src/decoder.rs", "crates/zune-bmp/src/decoder.rs", "crates/zune-psd/src/decoder.rs", "crates/zune-hdr/src/decoder.rs", "crates/zune-ppm/src/decoder.rs", "crates/zune-qoi/src/decoder.rs", "crates/zune-farbfeld/src/decoder.rs"],
  [("error returns in header and payload parsing", "crates/*/src/decoder.rs")], "codecs", FE, FI, N)
p("C05", "A source that fails or ends early is never reported as a complete image",
  "If the source returns an I/O error or ends at any point before the data needed for the pixels has been delivered, decoding a lossless format reports an error or delivers the pixels of the intact file; it never returns an image whose pixels differ from those.",
  ["crash_points", "fault_sequences"], "every byte position at which each corpus file can be cut, and every read call at which the source can fail once or permanently",
  "existing tests never inject read failures and never truncate files",
  ["crates/zune-core/src/bytestream/reader.rs", "crates/zune-png/src/decoder.rs", "crates/zune-bmp/src/decoder.rs", "crates/zune-psd/src/decoder.rs", "crates/zune-qoi/src/decoder.rs"],
  [("read_exact error propagation", "crates/zune-core/src/bytestream/reader/std_readers.rs")], "codecs", FE, FI, N)
p("C06", "What a decoder announces after the headers is what it then delivers",
  "For every decodable file and option set, the dimensions, colour space, bit depth and output size reported once the headers are read equal those of the pixels delivered. Decoding into a caller's buffer succeeds with exactly the announced size, leaves any surplus bytes untouched, writes the same bytes as a normal decode, and fails cleanly when the buffer is too small.",
  ["inputs", "configurations", "histories"], "every corpus file of every format and mode, option sets, and buffer sizes around the announced one",
  "existing tests check at most one announced value of a few files",
  ["crates/zune-png/src/decoder.rs", "crates/zune-jpeg/src/decoder.rs", "crates/zune-bmp/src/decoder.rs", "crates/zune-qoi/src/decoder.rs", "crates/zune-ppm/src/decoder.rs", "crates/zune-psd/src/decoder.rs", "crates/zune-hdr/src/decoder.rs", "crates/zune-farbfeld/src/decoder.rs"],
  [("output_buffer_size/decode_into", "crates/*/src/decoder.rs")], "codecs", MC, SL, N)
p("C07", "Configured dimension limits are enforced by every decoder",
  "A file whose width or height exceeds the configured maximum is rejected before its pixels are allocated or decoded; a file whose dimensions equal the maximum is not rejected on that account.",
  ["inputs", "configurations"], "every format and mode with dimensions below, at and above each configured maximum, in width, height and both",
  "no existing test sets a limit",
  ["crates/zune-core/src/options/decoder.rs", "crates/zune-png/src/headers/readers.rs", "crates/zune-jpeg/src/headers.rs", "crates/zune-bmp/src/decoder.rs", "crates/zune-psd/src/decoder.rs", "crates/zune-hdr/src/decoder.rs", "crates/zune-ppm/src/decoder.rs", "crates/zune-qoi/src/decoder.rs", "crates/zune-farbfeld/src/decoder.rs"],
  [("max_width/max_height comparisons", "crates/*/src")], "codecs", MC, SL, N)
p("C08", "A decoder's result does not depend on which queries were made before",
  "For every decoder and every sequence of header decoding, getter calls and option queries made before the pixels are requested, the pixels and the reported metadata are the same as for a fresh decoder asked for the pixels at once. Getters report nothing before the headers are read and never change afterwards.",
  ["histories"], "all call sequences up to the depth bound on each decoder over small files of each mode",
  "existing tests make one fixed sequence of calls",
  ["crates/zune-png/src/decoder.rs", "crates/zune-jpeg/src/decoder.rs", "crates/zune-bmp/src/decoder.rs", "crates/zune-qoi/src/decoder.rs", "crates/zune-ppm/src/decoder.rs", "crates/zune-psd/src/decoder.rs", "crates/zune-hdr/src/decoder.rs", "crates/zune-farbfeld/src/decoder.rs"],
  [("seen_headers/decoded_headers flags", "crates/*/src/decoder.rs")], "codecs", MC, SL, N)
p("C09", "PNG decoding is pixel-exact for every colour type, depth, filter and layout",
  "For every valid PNG of any colour type and bit depth, any mix of row filters, interlaced or not, with or without palette and transparency, split into data chunks in any way, the decoder returns exactly the samples the PNG specification defines.",
  ["inputs"], "all colour type × depth × interlace × filter-sequence × small-dimension combinations, all chunk splits of a stream, and sample values covering each depth",
  "existing tests compare a fixed set of sample files; an error in a rare width, filter order or depth combination is invisible to them",
  ["crates/zune-png/src/decoder.rs", "crates/zune-png/src/filters.rs", "crates/zune-png/src/utils.rs"],
  [("unfiltering and expansion", "crates/zune-png/src/decoder.rs")], "png", MC, SL, N)
p("C10", "PNG decode options transform the pixels exactly as documented",
  "Stripping to 8 bits, adding an alpha channel and choosing the byte order each change the decoded samples exactly as documented, alone and in every combination, for every colour type and depth; options that only tune strictness or speed change nothing on valid files.",
  ["configurations", "inputs"], "all option combinations × colour types × depths × small dimensions × transparency variants",
  "existing tests exercise one option at a time on a few files",
  ["crates/zune-png/src/decoder.rs", "crates/zune-png/src/utils.rs", "crates/zune-core/src/options/decoder.rs"],
  [("option handling after unfiltering", "crates/zune-png/src/decoder.rs")], "png", MC, SL, N)
p("C11", "Animated PNG frames are delivered in order and composed on the canvas exactly",
  "For every sequence of frames with any offsets, sizes, delays, blend and dispose operations, decoding frame by frame delivers each frame's own pixels, at its own size, and its control data, in order. The provided compositor, for frames that are not disposed of, replaces exactly the frame's region when blending with source, leaves the canvas under transparent pixels and replaces it under opaque ones when blending over (updating its alpha), touches nothing outside the region, uses the previous frame as background exactly for a frame that asks for it, and rejects frames that do not fit.",
  ["histories", "inputs"], "all frame sequences up to three (four) frames over sizes, offsets, delays, blend and dispose operations and data splits; all frame rectangles and pairs of them on a tiny canvas, with values spanning the alpha range",
  "the existing test decodes one animation",
  ["crates/zune-png/src/apng.rs", "crates/zune-png/src/decoder.rs"],
  [("post_process_image", "crates/zune-png/src/apng.rs")], "png", MC, SL, N)
p("C13", "Inflating a valid stream yields exactly the bytes it encodes",
  "For every valid DEFLATE, zlib or gzip stream, whatever its block types, Huffman code shapes, match lengths and distances, alignment and position in the input, decompression returns exactly the encoded bytes and accepts the checksum. The zlib writer's output inflates back to its input.",
  ["inputs"], "all token sequences up to the depth bound in every code shape; all match lengths × distance classes; all block sequences up to the bound; all header variants",
  "no unit tests exist for the decompressor; PNG samples exercise typical zlib output only",
  ["crates/zune-inflate/src/decoder.rs", "crates/zune-inflate/src/bitstream.rs", "crates/zune-inflate/src/utils.rs", "crates/zune-inflate/src/encoder.rs"],
  [("fast and slow decode loops", "crates/zune-inflate/src/decoder.rs"), ("bit reader refill", "crates/zune-inflate/src/bitstream.rs")],
  "inflate", MC, SL, N)
p("C14", "Damaged or oversized compressed data is rejected, never returned as good data",
  "If a compressed stream is cut short, refers to data before its start, uses a reserved block type, contradicts its stored lengths, asks for a preset dictionary or fails its checksum (of the data or of a gzip header), decompression returns an error. Output larger than the configured limit is never returned.",
  ["crash_points", "fault_sequences", "inputs"], "every truncation point and every single-bit flip of a family of streams in all three containers; every output limit around the true size; all zlib headers and the forms of gzip headers; all inputs up to two bytes",
  "no tests exist for damaged streams",
  ["crates/zune-inflate/src/decoder.rs", "crates/zune-inflate/src/bitstream.rs"],
  [("over-read accounting, limit and checksum tests", "crates/zune-inflate/src/decoder.rs")],
  "inflate", FE, FI, N)
p("C15", "QOI decoding and encoding follow the QOI specification exactly",
  "Every valid QOI stream decodes to the pixels the specification defines, for every sequence of opcodes; every image the encoder accepts is encoded to a stream that decodes back to the same pixels, header fields and colour space.",
  ["inputs", "histories"], "all opcode sequences up to the depth bound from every relevant state; all pixel sequences up to the bound over an alphabet that reaches every opcode",
  "one file is encoded by the existing test and none is decoded against an oracle; the codec is a state machine whose errors depend on the preceding pixels",
  ["crates/zune-qoi/src/decoder.rs", "crates/zune-qoi/src/encoder.rs"],
  [("running index and run handling", "crates/zune-qoi/src/decoder.rs")], "small", MC, SL, N)
p("C17", "PNM, PAM and PFM files decode to their exact samples and re-encode losslessly",
  "For every valid PBM-family, PAM or PFM file with any legal header whitespace, comments, maximum value, byte order and sample data, the decoder returns exactly the stored samples in row order; encoded files decode back to the same image.",
  ["inputs"], "all header whitespace and comment arrangements up to the bound × formats × small dimensions × sample values including bytes that look like whitespace",
  "no unit tests exist for this codec",
  ["crates/zune-ppm/src/decoder.rs", "crates/zune-ppm/src/encoder.rs"],
  [("header tokeniser", "crates/zune-ppm/src/decoder.rs")], "small", MC, SL, N)
p("C18", "BMP decoding is pixel-exact for every depth, layout and compression",
  "For every valid BMP of 1, 2, 4, 8, 16, 24 or 32 bits per pixel, bottom-up or top-down, palette, bit-field or run-length coded, of any width (hence any row padding), the decoder returns the pixels the format defines, and the colour primaries and embedded colour profile of the headers that have them as stored.",
  ["inputs"], "all depth × orientation × compression × small-dimension combinations; all short run-length command sequences",
  "existing tests hash a fixed set of sample files",
  ["crates/zune-bmp/src/decoder.rs", "crates/zune-bmp/src/utils.rs"],
  [("row unpacking, padding and flipping", "crates/zune-bmp/src/decoder.rs")], "small", MC, SL, N)
p("C19", "PSD decoding is pixel-exact for raw and packed data in every supported mode",
  "For every valid PSD merged image of a supported colour mode, depth, channel count and compression, the decoder returns the channel samples the format defines, 16 bit samples in native order, with the white matte of RGBA images removed (within one level); files cut short or with inconsistent headers or packed data are errors. Grayscale images yield their first channel.",
  ["inputs"], "all colour mode × depth × channel count × compression × small-dimension combinations; all packbits command splits of short rows",
  "existing tests hash a fixed set of sample files",
  ["crates/zune-psd/src/decoder.rs"], [("packbits and plane interleaving", "crates/zune-psd/src/decoder.rs")], "small", MC, SL, N)
p("C20", "Radiance HDR decoding follows the RGBE rules for every scanline coding",
  "For every valid Radiance file, flat, run-length or new-style adaptive coded, every pixel decodes to mantissa × 2^(exponent − 136), an exponent byte of 0 meaning black, for images whose scanlines are rows from the top (-Y +X) or columns from the left (+X -Y), other orientations being refused; headers and the resolution line are reported as written; and encoding an image produces a valid file in which every pixel is within one mantissa step of its brightest component, exact when the pixel is representable in the format.",
  ["inputs"], "all scanline codings × run splits × widths around the coding thresholds × exponent values",
  "no unit tests exist for this codec",
  ["crates/zune-hdr/src/decoder.rs", "crates/zune-hdr/src/encoder.rs"], [("scanline decoding", "crates/zune-hdr/src/decoder.rs")], "small", MC, SL, N)
p("C21", "Farbfeld files decode and encode exactly",
  "For every valid farbfeld file the decoder returns exactly the stored 16-bit RGBA samples by every decoding call, and encoding an image writes exactly the file those samples define.",
  ["inputs", "histories"], "all small dimensions × sample values × call sequences",
  "no unit tests exist for this codec",
  ["crates/zune-farbfeld/src/decoder.rs", "crates/zune-farbfeld/src/encoder.rs"], [("sample conversion", "crates/zune-farbfeld/src/decoder.rs")], "small", MC, SL, N)
p("C22", "JPEG decoding agrees with the reference for every coding of the same image",
  "A JPEG decodes to within the accuracy bound of the reference inverse transform and colour conversion, and the same coefficients written as baseline, as progressive with any spectral or successive-approximation script, with any restart interval, table numbers, table order and segments between scans, or as interleaved or separate scans decode to identical pixels.",
  ["inputs", "configurations"], "all script shapes, sampling factors, restart intervals, small dimensions and coefficient patterns in the bound",
  "existing tests hash a fixed set of sample files",
  ["crates/zune-jpeg/src/mcu.rs", "crates/zune-jpeg/src/mcu_prog.rs", "crates/zune-jpeg/src/bitstream.rs", "crates/zune-jpeg/src/idct.rs", "crates/zune-jpeg/src/huffman.rs", "crates/zune-jpeg/src/worker.rs"],
  [("entropy decoding", "crates/zune-jpeg/src/bitstream.rs"), ("scan handling", "crates/zune-jpeg/src/mcu_prog.rs")], "jpeg", MC, SL, N)
p("C23", "Accelerated and portable code paths produce the same image",
  "Turning platform intrinsics on or off in the decoder options never changes the decoded pixels of any file beyond the documented tolerance of the transform (none for lossless formats).",
  ["configurations", "inputs"], "all option settings × widths around every vector length × colour types × filters × sampling factors",
  "existing tests run with the default setting only",
  ["crates/zune-png/src/filters.rs", "crates/zune-png/src/filters/sse4.rs", "crates/zune-jpeg/src/idct.rs", "crates/zune-jpeg/src/color_convert.rs", "crates/zune-jpeg/src/upsampler.rs"],
  [("run-time selection of implementations", "crates/zune-core/src/options/decoder.rs")], "codecs", MC, SL, N)
p("C24", "Lossless encoders round-trip every image",
  "Encoding any image in a lossless format and decoding the result gives back the same dimensions, colour space, depth and samples, whenever the format can represent them; otherwise the conversion made is the documented one.",
  ["inputs", "configurations"], "all lossless formats × colour spaces × depths × small dimensions × sample patterns",
  "the existing test covers one format",
  ["crates/zune-image/src/codecs", "crates/zune-png/src/encoder.rs", "crates/zune-qoi/src/encoder.rs", "crates/zune-ppm/src/encoder.rs", "crates/zune-farbfeld/src/encoder.rs", "crates/zune-jpegxl/src/encoder.rs"],
  [("encoder trait preparation of the image", "crates/zune-image/src/traits.rs")], "codecs", MC, SL, N)
p("C25", "An encoder reports failed writes, counts its bytes and leaves the image alone",
  "If the sink refuses a write at any point, encoding returns an error; when it succeeds the sink holds the complete file and the returned count equals its size. A buffer of the size an encoder promises is large enough. Encoding does not modify the image and gives the same bytes every time.",
  ["crash_points", "fault_sequences"], "every byte position at which the sink can start refusing, for every encoder and colour space",
  "existing tests only encode into memory that never fails",
  ["crates/zune-core/src/bytestream/writer.rs", "crates/zune-image/src/traits.rs", "crates/zune-image/src/codecs", "crates/zune-qoi/src/encoder.rs", "crates/zune-hdr/src/encoder.rs", "crates/zune-farbfeld/src/encoder.rs", "crates/zune-ppm/src/encoder.rs"],
  [("error propagation in encoders", "crates/*/src/encoder.rs")], "codecs", FE, FI, N)
p("C26", "JPEG XL output is lossless and the same however many threads encode it",
  "Every image accepted by the JPEG XL encoder is encoded to a file that an independent decoder expands to exactly the same samples, and the file is identical for every thread count and on every run.",
  ["inputs", "configurations", "schedules"], "all colour spaces × depths × efforts × dimensions around group boundaries × sample patterns × thread counts",
  "no unit tests exist for this encoder",
  ["crates/zune-jpegxl/src/encoder.rs"], [("group splitting and bit writers", "crates/zune-jpegxl/src/encoder.rs")], "jxl", MC, SL, N)
p("C27", "A channel is a faithful typed container for every history of operations",
  "For every sequence of creating, pushing, extending, filling, cloning, reinterpreting and mutating operations, a channel holds exactly the elements a plain typed vector would, and refuses to expose its bytes as a type of another kind. No history corrupts memory.",
  ["histories"], "all operation sequences up to the depth bound over 8-bit, 16-bit and float channels of every small capacity, under a checking allocator",
  "existing tests run a handful of fixed sequences; growth and aliasing errors depend on the capacity history",
  ["crates/zune-image/src/channel.rs"], [("manual allocation and growth", "crates/zune-image/src/channel.rs")], "img", MC, SL, N)
p("C28", "Building and flattening an image preserve every sample, in every layout",
  "An image built from interleaved samples, planes or a function returns those samples unchanged when flattened, converted to bytes or read by channel, for every colour space, depth and dimension; inconsistent sizes are rejected. Cloned images are independent.",
  ["inputs", "histories"], "all colour spaces × depths × small dimensions × construction and flattening routes, with every element distinct",
  "existing tests cover single dimensions of a few colour spaces",
  ["crates/zune-image/src/image.rs", "crates/zune-image/src/deinterleave.rs", "crates/zune-image/src/frame.rs"],
  [("interleave/deinterleave", "crates/zune-image/src/deinterleave.rs")], "img", MC, SL, N)
p("C29", "Colour-space conversion keeps the image valid and the colours right",
  "Converting an image between any two supported colour spaces gives an image whose channel count and sizes match the new space and whose colours are those of the documented formula within rounding, and round trips that are exact in theory (adding then removing alpha, reordering channels) are exact. Unsupported conversions fail and leave the image unchanged.",
  ["inputs", "configurations"], "all ordered pairs of colour spaces × depths × small dimensions × a colour cube",
  "existing tests cover a few pairs at one depth",
  ["crates/zune-imageprocs/src/color_transform.rs", "crates/zune-image/src/core_filters/colorspace.rs", "crates/zune-image/src/core_filters/colorspace"],
  [("conversion dispatch", "crates/zune-image/src/core_filters/colorspace.rs")], "img", MC, SL, N)
p("C30", "Bit-depth conversion maps black to black, white to white and keeps order",
  "Converting between 8-bit, 16-bit and float samples maps the range ends to the range ends, is monotonic, widening then narrowing returns the original value for every value, and the image's recorded depth always matches its data.",
  ["inputs", "histories"], "every 8-bit and 16-bit value, all conversion sequences up to the bound, float values around every rounding boundary",
  "existing tests convert a single image",
  ["crates/zune-image/src/core_filters/depth.rs"], [("depth conversion", "crates/zune-image/src/core_filters/depth.rs")], "img", MC, SL, N)
p("C31", "A pipeline applies every operation once, in order, to every image",
  "For every sequence of chaining images, a decoder and operations and of advancing the pipeline step by step or to its end, the decoder runs exactly once and every image, chained or decoded, passes through every operation exactly once, in the order added. A failing decoder or operation, an operation that does not support the image or leaves it inconsistent, and a pipeline without any image surface as an error; a failed operation step is not passed over by advancing again.",
  ["histories", "fault_sequences"], "all call histories up to the depth bound, and all pipelines up to the bound on images, decoders and operations with every failure position, run in one go or step by step",
  "no existing test runs a pipeline",
  ["crates/zune-image/src/pipelines.rs", "crates/zune-image/src/traits.rs"], [("state machine", "crates/zune-image/src/pipelines.rs")], "codecs", MC, SL, N)
p("C32", "Format detection recognises each supported signature and nothing else",
  "The format guessed from the leading bytes of a file is the format whose signature they carry, for any sufficient prefix length, and unknown data is reported as unknown; detection never consumes the input or changes what is decoded afterwards.",
  ["inputs"], "all corpus prefixes of every length, all single-byte signature corruptions, all format pairs",
  "no existing test covers detection",
  ["crates/zune-image/src/codecs.rs"], [("magic table", "crates/zune-image/src/codecs.rs")], "codecs", MC, SL, N)
p("C33", "Geometric operations move every sample to its defined place",
  "Flipping, mirroring, transposing, cropping and rotating by a multiple of 90 degrees (clockwise) place every sample where the documentation's diagrams say, for every dimension, depth, colour space and number of frames, alone and in sequence; they update the dimensions and never touch memory outside the image. A crop that does not fit inside the image fails.",
  ["inputs", "histories"], "all dimensions up to the bound and around vector widths × depths × channel counts × operation sequences up to the depth bound",
  "existing tests check one or two sizes per operation",
  ["crates/zune-imageprocs/src/flip.rs", "crates/zune-imageprocs/src/mirror.rs", "crates/zune-imageprocs/src/transpose.rs", "crates/zune-imageprocs/src/crop.rs", "crates/zune-imageprocs/src/rotate.rs"],
  [("index arithmetic", "crates/zune-imageprocs/src")], "procs", MC, SL, N)
p("C34", "Point operations compute their documented function on every sample",
  "Brightness (x + value*max), contrast (f(x-128)+128 for 8 bits), exposure ((x - black*max)*exposure), gamma (max*(x/max)^g), inversion (max - x), the four OpenCV threshold methods and contrast stretching (linear from lower to upper) give for every colour sample the documented function of that sample and the parameters, clamped to the range and rounded to a neighbouring integer, regardless of position, image size, depth, frame, channel count or neighbouring samples, and leave alpha as it is; hue/saturation/lightness and the colour matrix give the documented linear combination of the red, green, blue and alpha of the pixel in every colour space that has them.",
  ["inputs", "configurations"], "every 8-bit value and a dense 16-bit/float set × parameter values including extremes × depths × positions around vector widths",
  "existing tests check few values",
  ["crates/zune-imageprocs/src/brighten.rs", "crates/zune-imageprocs/src/contrast.rs", "crates/zune-imageprocs/src/exposure.rs", "crates/zune-imageprocs/src/gamma.rs", "crates/zune-imageprocs/src/invert.rs", "crates/zune-imageprocs/src/threshold.rs", "crates/zune-imageprocs/src/stretch_contrast.rs"],
  [("per-sample loops", "crates/zune-imageprocs/src")], "procs", MC, SL, N)
p("C35", "Neighbourhood filters equal their mathematical definition at every pixel",
  "Box blur, median, minimum, maximum, mean, gradient and contrast over a window of 2r+1, the bilateral filter, Sobel, Scharr and convolution equal their definition at every pixel, where pixels beyond the border repeat the border pixel, in every frame, colour channel and supported depth (alpha is left alone except by the blurs), and reject unsupported kernel sizes; the Gaussian blur keeps constants and the range of its input, and commutes with transposing and mirroring; unsharp masking adds the difference to the Gaussian blur where it exceeds the threshold, saturating.",
  ["inputs", "configurations"], "all tiny images over a small alphabet × radii × depths, and larger dimension sweeps",
  "existing tests only run the filters for benchmarks or single sizes",
  ["crates/zune-imageprocs/src/box_blur.rs", "crates/zune-imageprocs/src/gaussian_blur.rs", "crates/zune-imageprocs/src/median.rs", "crates/zune-imageprocs/src/sobel.rs", "crates/zune-imageprocs/src/scharr.rs", "crates/zune-imageprocs/src/convolve.rs", "crates/zune-imageprocs/src/unsharpen.rs"],
  [("padding and window loops", "crates/zune-imageprocs/src")], "procs", MC, SL, N)
p("C36", "Blending, compositing and pre-multiplying follow their formulas at every pixel",
  "Blending gives alpha*source + (1-alpha)*destination in every colour channel (the source from 1 up, the destination from 0 down, alpha channel ignored). Compositing at any position changes only the overlap (or, with Src, makes the rest blank): Over copies opaque images, and with an alpha channel gives a*source + (1-a)*destination and the alpha a + (1-a)*destination alpha; Src replaces, Dst does nothing. Images that do not match are rejected and left unchanged. Pre-multiplying gives colour*alpha, un-premultiplying colour/alpha (0 for transparent pixels), rounded to a neighbouring integer and saturated, exactly once however often it is asked for, and the image records its state.",
  ["inputs", "configurations"], "all methods × alpha values × positions including partly and fully outside × depths",
  "existing tests check few values",
  ["crates/zune-imageprocs/src/blend.rs", "crates/zune-imageprocs/src/composite.rs", "crates/zune-imageprocs/src/premul_alpha.rs"],
  [("per-pixel combination", "crates/zune-imageprocs/src/composite.rs")], "procs", MC, SL, N)
p("C37", "Resizing yields the requested size and keeps what interpolation must keep",
  "Resizing any image by any method yields exactly the requested dimensions in every channel, frame and depth; each sample is the normalised weighted mean the method's kernel defines (computed in linear light with pre-multiplied alpha), so constant images stay constant, the non-negative kernels never leave the range of the input, and resizing to the same size changes nothing. The image keeps its depth, alpha state and transfer function. An affine transform samples the inversely mapped position bilinearly into the bounding box, white outside; the identity changes nothing; composing transforms multiplies their matrices, and the inverse undoes a transform. Impossible requests (zero size, singular matrix) fail and change nothing.",
  ["inputs", "configurations"], "all source and target dimensions up to the bound × methods × depths",
  "existing tests only resize once per method",
  ["crates/zune-imageprocs/src/resize.rs", "crates/zune-imageprocs/src/resize", "crates/zune-imageprocs/src/image_transfer.rs", "crates/zune-imageprocs/src/affine.rs"],
  [("resampling kernels", "crates/zune-imageprocs/src/resize")], "procs", MC, SL, N)
p("C38", "Running an operation on all channels in parallel gives the sequential result",
  "For every order in which the per-channel work is scheduled, each channel is processed exactly once, the result equals processing the channels one after another, and an error from any channel is reported as an error of the operation. The same holds for the parallel copy of large images.",
  ["schedules", "fault_sequences"], "all interleavings of the per-channel workers at operation granularity × channel counts × failing channels",
  "existing tests observe one schedule per run",
  ["crates/zune-imageprocs/src/utils.rs", "crates/zune-image/src/frame.rs"], [("scoped threads per channel", "crates/zune-imageprocs/src/utils.rs")], "procs", MC,
  "exhaustive schedule enumeration of the real threaded code under a token scheduler", N)
p("C39", "Automatic orientation undoes every recorded camera orientation",
  "For each of the eight orientation values, automatic orientation produces the upright image, sets the dimensions accordingly and resets the recorded orientation so that applying it again changes nothing; files without orientation are unchanged.",
  ["inputs", "histories"], "all eight values and invalid ones × dimensions × depths × repeated application",
  "no existing test covers orientation",
  ["crates/zune-imageprocs/src/auto_orient.rs"], [("orientation dispatch", "crates/zune-imageprocs/src/auto_orient.rs")], "full", MC, SL, N)
p("C40", "The C interface returns what the Rust interface decodes and never aborts",
  "For every supported or damaged file and every sequence of calls within the documented contract, the C interface reports the same dimensions, depth, colour space and pixels as the Rust interface, or an error; it never aborts the process, writes outside the buffer it was given, frees memory twice or loses memory it allocated.",
  ["histories", "inputs"], "all call sequences up to the depth bound over a file of each format; every truncation and byte damage in a set for each file; output buffers of every size around the announced one; missing images and status objects",
  "existing tests make two fixed call sequences",
  ["crates/zune-capi/src/lib.rs", "crates/zune-capi/src/imread.rs", "crates/zune-capi/src/errno.rs"], [("extern functions", "crates/zune-capi/src/imread.rs")], "capi", MC, SL, N)
p("C41", "The command line applies the given operations in order and writes each output",
  "For every input file or standard input, operations in any order and set of outputs, the command line program writes to each named output exactly the image obtained by applying the operations in command-line order, encoded in the format of that output's extension (or of --output-format on standard output, with nothing else mixed in) with the given quality, effort, progressive and strip settings. Whenever an argument is wrong or reading, an operation, encoding or writing fails, it exits non-zero. --probe prints what the file's headers say.",
  ["configurations", "histories"], "all operation sequences up to the bound in all spellings and argument positions × input and output formats × settings × failure cases and truncations",
  "the existing test only parses the arguments",
  ["crates/zune-bin/src/workflow.rs", "crates/zune-bin/src/cmd_parsers", "crates/zune-bin/src/cmd_args"], [("argument to operation translation", "crates/zune-bin/src/workflow.rs")], "cli", MC, SL, N)
p("C42", "A failed or unsupported operation leaves the image intact",
  "When an operation returns an error, the image still has its previous dimensions, colour space, depth, alpha state and samples; when it succeeds, every channel's length matches the image's dimensions and depth. An operation given an image whose channels don't match, or leaving one, reports an error.",
  ["configurations", "fault_sequences"], "all operations × colour spaces × depths × dimensions from 1×1 up",
  "existing tests run operations on supported inputs only",
  ["crates/zune-image/src/traits.rs", "crates/zune-imageprocs/src"], [("operation precondition checks", "crates/zune-image/src/traits.rs")], "procs", MC, SL, N)
p("C43", "PNG and JPEG metadata is delivered as stored and never disturbs the image",
  "Texts, times, gamma values, colour profiles and EXIF blocks of PNG files, and EXIF, XMP, IPTC, colour profile (in any order of its segments), gain map and multi-picture segments of JPEG files are reported exactly as stored, whatever their number, order and position before or after the image data; an incomplete or inconsistent set of profile segments reports no profile. Metadata, unknown chunks and segments, and malformed or truncated ones never change the pixels or make what follows them get lost.",
  ["inputs"], "all sequences of metadata chunks and segments up to the bound at every header position; all orders of up to five profile segments with every single fault; every kind of chunk and segment cut to every length",
  "existing tests hold no file with more than one kind of metadata, and none with malformed chunks",
  ["crates/zune-png/src/headers/readers.rs", "crates/zune-jpeg/src/headers.rs", "crates/zune-jpeg/src/decoder.rs", "crates/zune-image/src/metadata/exif.rs"],
  [("chunk parsers", "crates/zune-png/src/headers/readers.rs"), ("segment parsers", "crates/zune-jpeg/src/headers.rs"), ("profile assembly", "crates/zune-jpeg/src/decoder.rs")], "full", MC, SL, N)
p("C44", "Animated PNG files read as images show the canvases the animation defines",
  "Reading an animated PNG as an image gives one frame for each frame of the animation, holding the whole canvas as it is shown: every frame is drawn over what the disposal of the frames before it left, in its own region, replacing or blended over what is there; the default image is a frame only when it is part of the animation. Every frame is shown for the time the file gives. When animations are not wanted, the default image alone is read.",
  ["histories", "inputs"], "all sequences of up to three (five) frames over regions, disposal and blend operations, delays, colour types, and default images inside and outside the animation; every region of small canvases",
  "no existing test reads an animated image",
  ["crates/zune-image/src/codecs/png.rs", "crates/zune-png/src/apng.rs", "crates/zune-png/src/decoder.rs"],
  [("animated decoding", "crates/zune-image/src/codecs/png.rs")], "codecs", MC, SL, N)

p("C45", "Converting to a colour profile gives that profile's colours and records it",
  "Transforming an image with a colour profile to another one converts every pixel of every frame from the profile the image has to the new one, for grayscale, RGB and RGBA images of every depth, and leaves the image with the new profile, so that transformations in a row each convert from what the one before left. Without a profile nothing changes; with one that is damaged or doesn't suit the image the operation fails and changes nothing.",
  ["configurations", "histories"], "all pairs of source profile (valid, unsuitable, damaged, none) and destination × colour spaces × depths × dimensions × frames; all sequences of transformations up to the bound",
  "the existing test is empty",
  ["crates/zune-imageprocs/src/color_transform.rs"], [("the transformation", "crates/zune-imageprocs/src/color_transform.rs")], "cms", MC, SL, N)
p("C46", "WebP and JPEG XL files read as images give the pixels stored in them",
  "Reading a WebP or JPEG XL file as an image, from memory or from a reader, gives its exact pixels, dimensions, colour space and format, with or without metadata in the file. Files larger than the configured limits are refused before memory is taken for them, and cut or damaged ones give an error or a well-formed image, never a crash.",
  ["inputs"], "all images of the bound over dimensions, colour types and sample patterns × file forms × sources; all pairs of limits around the dimensions; every truncation and byte damage of a set of files",
  "no existing test reads either format through the image interface",
  ["crates/zune-image/src/codecs/webp.rs", "crates/zune-image/src/codecs/jpeg_xl.rs", "crates/zune-image/src/codecs.rs"],
  [("decoder adaptors", "crates/zune-image/src/codecs/webp.rs"), ("decoder adaptors", "crates/zune-image/src/codecs/jpeg_xl.rs")], "foreign", MC, SL, N)
p("C47", "Every option is kept as set and does what it says, and nothing else",
  "After any sequence of setters on any preset, each decoder and encoder option has the value last set for it; strict mode sets the conformance, CRC and Adler checks together, quality is limited to 100, and no accelerated code is allowed when unsafe code is off. A PNG file with a wrong CRC or Adler checksum is rejected exactly when confirming that checksum is on (for chunks up to the image data), and a JPEG file of several scans exactly when they are more than allowed; nothing in a PNG file, neither image data nor a profile or text, is decompressed past the inflate limit, and nothing within it is lost; no preset, checking or acceleration option changes the pixels of a valid file. Options replaced before decoding act like those given at the start.",
  ["histories", "configurations"], "all setter sequences up to the bound; all presets and checking options × corpus; all wrong checksums × checking options; all scan counts around all limits",
  "existing tests set single options",
  ["crates/zune-core/src/options/decoder.rs", "crates/zune-core/src/options/encoder.rs", "crates/zune-png/src/decoder.rs", "crates/zune-jpeg/src/mcu_prog.rs", "crates/zune-jpeg/src/mcu.rs"],
  [("setters and getters", "crates/zune-core/src/options/decoder.rs"), ("setters and getters", "crates/zune-core/src/options/encoder.rs")], "codecs", MC, SL, N)
p("C48", "The WebAssembly interface does what the Rust interface does",
  "Decoding through the WebAssembly interface gives exactly the image the Rust interface reads, at 8 bits, and none for data that can't be decoded; formats are recognised alike; each method that changes the image has exactly the effect of the operation it stands for, in every sequence; width, height, colour space and alpha are those of the image, and saving gives the bytes the Rust interface writes.",
  ["histories", "inputs"], "all call sequences up to the bound on images of several formats and colour spaces; every file of the corpus and every truncation and byte damage of a set of them",
  "no existing test runs this interface",
  ["crates/zune-wasm/src/lib.rs", "crates/zune-wasm/src/enums.rs"], [("exported methods", "crates/zune-wasm/src/lib.rs"), ("enumerations", "crates/zune-wasm/src/enums.rs")], "wasm", MC, SL, N)
p("C49", "Opening and saving files is the same as reading and encoding in memory",
  "Opening a file gives the image reading its bytes gives, decided by the contents whatever the name, and the samples its decoder gives, under the same options; saving by extension, by format or with an encoder writes exactly the bytes encoding to memory gives, replacing what the file held before. After any sequence of opens and saves, every file holds what was last saved to it; when the extension is unknown or the format has no encoder saving fails, creating and changing nothing. Formats say truthfully whether they can be read and written, and each extension stands for its format.",
  ["inputs", "histories"], "the whole corpus × names × ways of opening; all formats × ways of saving × images; all extensions; all sequences of saves and opens up to the bound over a directory",
  "existing tests open no file by path",
  ["crates/zune-image/src/codecs.rs"], [("opening and saving", "crates/zune-image/src/codecs.rs")], "codecs", MC, SL, N)
p("C50", "A JPEG written shows its image, and metadata survives writing",
  "Encoding any image of at most 65535 by 65535 pixels as JPEG gives a file of the same dimensions that, at the highest qualities, decodes to nearly the samples of the image (converted to 8 bits and to a colour space the format has), and leaves the image as it was; larger images are refused. The file is progressive exactly when that is asked for, and a higher quality never quantizes more coarsely. The EXIF fields of an image saved as JPEG or PNG are the fields of the image read back, unless stripping metadata is asked for.",
  ["inputs", "configurations"], "all colour spaces × depths × dimensions of the bound × frames × ways of encoding; every quality × progressive; dimensions around 65535; every subset of a list of EXIF fields of all kinds × format × stripping",
  "existing tests write no JPEG, and no metadata",
  ["crates/zune-image/src/codecs/jpeg.rs", "crates/zune-image/src/codecs/png.rs", "crates/zune-image/src/traits.rs", "crates/zune-png/src/encoder.rs"],
  [("the JPEG encoder adaptor", "crates/zune-image/src/codecs/jpeg.rs"), ("writing EXIF blocks", "crates/zune-image/src/codecs/png.rs")], "full", MC, SL, N)
p("C51", "Builds without the standard library give the same results",
  "Built without their std feature, the libraries behave as they do with it: the byte reader and writer over memory are the cursors of C01 and C02, inflate returns exactly the bytes that were compressed and rejects damaged streams, and the PNG, JPEG, BMP, PSD, PPM, QOI and farbfeld decoders return the pixels their format specifications define.",
  ["configurations", "inputs", "histories"], "the operation histories of C01 and C02 over memory, the streams of C13 and C14, and the files of C09, C10, C11, C15, C17, C18, C19, C21 and C22, each against libraries built without std",
  "existing tests build only with the standard library, so the byte stream that the other build uses is never executed",
  ["crates/zune-core/src/bytestream/reader/no_std_readers.rs", "crates/zune-core/src/bytestream/reader/zcursor_no_std.rs", "crates/zune-core/src/bytestream/writer/no_std_writer.rs", "crates/zune-inflate/src/decoder.rs", "crates/zune-png/src/decoder.rs", "crates/zune-jpeg/src/decoder.rs"],
  [("the cursor without the standard library", "crates/zune-core/src/bytestream/reader/no_std_readers.rs"), ("the writers without the standard library", "crates/zune-core/src/bytestream/writer/no_std_writer.rs")], "nostd", MC, SL, N)
