bugs = [
dict(id="core-seek-past-end", property="C01", needs="a seek relative to the end of an in-memory source with a positive offset, then a backward move",
 breaks="The cursor stops at the end instead of where it was sent, so a later relative move lands on the wrong byte.",
 edits=[("crates/zune-core/src/bytestream/reader/std_readers.rs", "std::io::SeekFrom::End(n) => (self.stream.as_ref().len(), n as isize),", "std::io::SeekFrom::End(n) => (self.stream.as_ref().len(), n.min(0) as isize),")],
 deps=["zune-core std"], demo="""
use zune_core::bytestream::{ZCursor, ZReader, ZSeekFrom};
fn main() {
    let mut r = ZReader::new(ZCursor::new([1u8, 2, 3, 4, 5, 6]));
    assert_eq!(r.seek(ZSeekFrom::End(2)).unwrap(), 8);
    r.rewind(3).unwrap();
    assert_eq!(r.read_u8_err().unwrap(), 6);
}
"""),
dict(id="core-write-count", property="C02", needs="a plain write that only partly fits a fixed-size sink",
 breaks="A short write reports the whole buffer as written in the running count while only part of it was stored.",
 edits=[("crates/zune-core/src/bytestream/writer.rs", """        let bytes_written = self.buffer.write_bytes(buf)?;
        self.bytes_written += bytes_written;""", """        let bytes_written = self.buffer.write_bytes(buf)?;
        self.bytes_written += buf.len();""")],
 deps=["zune-core std"], demo="""
use zune_core::bytestream::ZWriter;
fn main() {
    let mut b = [0u8; 3];
    let mut w = ZWriter::new(&mut b[..]);
    let n = w.write(&[1, 2, 3, 4, 5]).unwrap();
    assert_eq!(n, 3);
    assert_eq!(w.bytes_written(), 3);
}
"""),
dict(id="inflate-static-after-dynamic", property="C13", needs="a static block, then a dynamic block, then another static block in one stream",
 breaks="The second static block is decoded with the tables of the dynamic block before it.",
 edits=[("crates/zune-inflate/src/decoder.rs", "            self.static_codes_loaded = false;\n\n            // Dynamic Huffman block", "            // Dynamic Huffman block")],
 deps=["zune-inflate zlib gzip"], demo="""
use zune_inflate::DeflateDecoder;
fn main() {
    let data: &[u8] = &[202, 72, 205, 201, 201, 87, 40, 46, 73, 44, 201, 76, 6, 0, 0, 0, 255, 255, 236, 206, 9, 14, 68, 48, 0, 0, 192, 138, 163, 174, 104, 28, 141, 163, 101, 197, 149, 10, 165, 142, 40, 203, 255, 223, 181, 255, 216, 152, 23, 12, 128, 84, 221, 15, 155, 197, 184, 188, 26, 90, 73, 138, 252, 18, 140, 108, 245, 246, 97, 129, 140, 144, 222, 218, 166, 51, 144, 211, 10, 89, 154, 116, 26, 103, 194, 154, 234, 238, 204, 108, 11, 207, 36, 34, 75, 236, 120, 197, 51, 246, 187, 127, 10, 233, 137, 166, 221, 177, 250, 216, 149, 163, 154, 4, 204, 179, 146, 219, 6, 234, 144, 110, 209, 135, 243, 111, 162, 63, 176, 208, 229, 141, 166, 79, 222, 195, 153, 9, 115, 40, 171, 53, 82, 129, 219, 34, 211, 171, 204, 243, 114, 251, 56, 42, 142, 50, 166, 34, 50, 32, 94, 62, 89, 125, 215, 105, 33, 66, 93, 243, 121, 26, 210, 53, 69, 65, 109, 108, 139, 66, 12, 240, 182, 223, 246, 191, 180, 127, 0, 0, 0, 255, 255, 43, 46, 73, 44, 201, 76, 86, 72, 76, 79, 204, 204, 211, 81, 48, 52, 50, 6, 0];
    let mut want = b"hello static".to_vec();
    want.extend((0..900u32).map(|k| ((k * k * 7 + k / 3) % 61) as u8));
    want.extend(b"static again, 123");
    let out = DeflateDecoder::new(data).decode_deflate();
    assert!(out.is_ok() && out.unwrap() == want);
}
"""),
dict(id="channel-eq-tail", property="C27", needs="two channels whose byte length is not a multiple of four and that differ only in the tail",
 breaks="Channels of equal length but different contents in the tail compare equal.",
 edits=[("crates/zune-image/src/channel.rs", "            for (a, b) in us.iter().zip(them) {", "            for (a, b) in us.iter().zip(them).take(us.len() & !3) {")],
 deps=["zune-image = { path = \"@REPO@/crates/zune-image\", default-features = false }"], demo="""
use zune_image::channel::Channel;
fn main() {
    let mut a = Channel::new::<u16>();
    let mut b = Channel::new::<u16>();
    a.extend(&[1u16, 2, 3]);
    b.extend(&[1u16, 2, 4]);
    assert!(a != b);
}
"""),
dict(id="crop-full-width", property="C33", needs="a crop as wide as the image that does not start at its first row",
 breaks="A fast path for crops of whole rows forgets the vertical offset.",
 edits=[("crates/zune-imageprocs/src/crop.rs", """        // these generate panic paths for chunks_exact so just eliminate them
        return;
    }
""", """        // these generate panic paths for chunks_exact so just eliminate them
        return;
    }
    if in_width == out_width {
        // whole rows are contiguous
        let length = out_width * out_height;
        out_image[..length].copy_from_slice(&in_image[x..x + length]);
        return;
    }
""")],
 deps=["zune-core std", 'zune-image = { path = "@REPO@/crates/zune-image", default-features = false }', 'zune-imageprocs = { path = "@REPO@/crates/zune-imageprocs", default-features = false }'], demo="""
use zune_core::colorspace::ColorSpace;
use zune_image::{image::Image, traits::OperationsTrait};
use zune_imageprocs::crop::Crop;
fn main() {
    let mut im = Image::from_u8(&[1, 2, 3, 4, 5, 6], 2, 3, ColorSpace::Luma);
    Crop::new(2, 2, 0, 1).execute(&mut im).unwrap();
    assert!(im.flatten_to_u8()[0] == [3, 4, 5, 6]);
}
"""),
]
