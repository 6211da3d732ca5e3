exec(open('/verif/tools/seedsrc/a.py').read().split('SEEDS=[')[0])
PNGH=JH+'''
#[allow(dead_code)]
fn crc(d: &[u8]) -> u32 { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 } } } !c }
#[allow(dead_code)]
fn png(chunks: &[(&[u8], Vec<u8>)]) -> Vec<u8> {
    let mut v = b"\\x89PNG\\r\\n\\x1a\\n".to_vec();
    for (t, d) in chunks { v.extend((d.len() as u32).to_be_bytes()); let mut x = t.to_vec(); x.extend(d); v.extend(&x); v.extend(crc(&x).to_be_bytes()); }
    v
}
#[allow(dead_code)]
fn ihdr() -> Vec<u8> { vec![0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0] }
'''
SEEDS=[
dict(id='png-profile-10k', property='C01', needs='a PNG whose EXIF block has 10000 bytes or more, so that its length has more than four decimal digits',
 breaks='only four digits of the declared length of a raw EXIF profile are taken into account, larger blocks are written but refused when read',
 edits=[('src/png/mod.rs','''for i in 0..std::cmp::min(4, pop_storage.len())''','''for i in 0..std::cmp::min(2, pop_storage.len())''')],
 demo=PNGH+'''
fn main() {
    let p = png(&[(b"IHDR", ihdr()), (b"IDAT", vec![1, 2, 3]), (b"IEND", vec![])]);
    for n in [10usize, 9900, 9990, 20000] {
        let mut v = p.clone();
        let mut m = Metadata::new();
        m.set_tag(ExifTag::ImageDescription("x".repeat(n)));
        m.write_to_vec(&mut v, FileExtension::PNG { as_zTXt_chunk: true }).unwrap();
        let r = Metadata::new_from_vec(&v, FileExtension::PNG { as_zTXt_chunk: true }).unwrap();
        assert_eq!(r.get_tag(&ExifTag::ImageDescription(String::new())).next(), Some(&ExifTag::ImageDescription("x".repeat(n))));
    }
}
'''),
dict(id='png-text-profile', property='C04', needs='a PNG that carries its EXIF as a raw profile in an uncompressed tEXt chunk',
 breaks='tEXt chunks are read but not removed, so after a write two EXIF carriers remain',
 edits=[('src/png/mod.rs','''            "iTXt" | "zTXt" | "tEXt" => {''','''            "iTXt" | "zTXt" => {''')],
 demo=PNGH+'''
fn main() {
    let prof = b"Raw profile type exif\\0\\nexif\\n      20\\n457869660000\\n49492a00080000000000\\n00000000\\n".to_vec();
    let t = FileExtension::PNG { as_zTXt_chunk: true };
    let plain = png(&[(b"IHDR", ihdr()), (b"IDAT", vec![1, 2, 3]), (b"IEND", vec![])]);
    let mut v = png(&[(b"IHDR", ihdr()), (b"tEXt", prof), (b"IDAT", vec![1, 2, 3]), (b"IEND", vec![])]);
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageDescription("new".into()));
    m.write_to_vec(&mut v, t).unwrap();
    let mut w = plain.clone();
    m.write_to_vec(&mut w, t).unwrap();
    assert_eq!(v, w);
}
'''),
dict(id='app13-photoshop', property='C05', needs='an APP13 segment that does not start with the usual Photoshop identifier, in a file',
 breaks='the file interface only removes APP13 segments of Photoshop, the in-memory interface all of them',
 edits=[('src/metadata/metadata_io.rs','''=>  jpg::file_clear_segment(path, 0xed, None),''','''=>  jpg::file_clear_segment(path, 0xed, Some(b"Photoshop")),''')],
 demo=JH+'''
fn main() {
    let orig = jpeg(&[(0xe0, b"JFIF\\0"), (0xed, b"Photoshop 3.0\\0abc"), (0xed, b"Adobe_CM\\0\\x01\\x02\\x03\\x04"), (0xfe, b"c")], b"\\x01\\x02\\x03");
    let mut v = orig.clone();
    Metadata::clear_app13_segment(&mut v, FileExtension::JPEG).unwrap();
    std::fs::write("a.jpg", &orig).unwrap();
    Metadata::file_clear_app13_segment(std::path::Path::new("a.jpg")).unwrap();
    assert_eq!(std::fs::read("a.jpg").unwrap(), v);
}
'''),
dict(id='webp-flag-mask', property='C06', needs='a WebP file with an EXIF and an XMP chunk that is cleared through the file interface',
 breaks='the XMP flag of the VP8X chunk is cleared together with the EXIF flag although the XMP chunk stays',
 edits=[('src/webp/file.rs','''        flag_buffer[0] & 0b11110111''','''        flag_buffer[0] & 0b11110011''')],
 demo=JH+'''
fn main() {
    let t = b"II\\x2a\\0\\x08\\0\\0\\0\\0\\0\\0\\0\\0\\0".to_vec();
    let img = (&b"VP8 "[..], vec![7u8; 20]);
    let v = riff(&[(b"VP8X", vec![0x0c, 0, 0, 0, 9, 0, 0, 9, 0, 0]), img.clone(), (b"EXIF", t), (b"XMP ", vec![1, 2, 3])]);
    std::fs::write("a.webp", &v).unwrap();
    Metadata::file_clear_metadata(std::path::Path::new("a.webp")).unwrap();
    assert_eq!(std::fs::read("a.webp").unwrap(), riff(&[(b"VP8X", vec![0x04, 0, 0, 0, 9, 0, 0, 9, 0, 0]), img, (b"XMP ", vec![1, 2, 3])]));
}
'''),
dict(id='hdlr-size', property='C07', needs='a HEIF file whose handler box declares a size that ends inside its reserved fields',
 breaks='the length of the name underflows: reading the file panics or tries to read an enormous amount of data',
 edits=[('src/heif/boxes/meta.rs','''header.get_header_size() + 4 + 4 + 12 ''','''header.get_header_size() + 4 + 4 ''')],
 demo=JH+'''
fn bx(t: &[u8], d: &[u8]) -> Vec<u8> { let mut v = ((d.len() + 8) as u32).to_be_bytes().to_vec(); v.extend(t); v.extend(d); v }
fn main() {
    for short in 0..24u8 {
        let mut h = bx(b"hdlr", b"\\0\\0\\0\\0\\0\\0\\0\\0pict\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0");
        h[3] -= short;
        let mut m = vec![0; 4]; m.extend(h);
        let mut v = bx(b"ftyp", b"heic\\0\\0\\0\\0heic"); v.extend(bx(b"meta", &m));
        let _ = Metadata::new_from_vec(&v, FileExtension::HEIF);
    }
}
'''),
dict(id='iloc-v2-method', property='C18', needs='a HEIF image with an item location box of version 2',
 breaks='the construction method field is left out when an item location box of version 2 is written, so every item location is misread',
 edits=[('src/heif/boxes/item_location.rs','''            if (self.header.get_version() == 1) || (self.header.get_version() == 2)
            {
                serialized''','''            if self.header.get_version() == 1
            {
                serialized''')],
 demo=JH+'''
fn bx(t: &[u8], d: &[u8]) -> Vec<u8> { let mut v = ((d.len() + 8) as u32).to_be_bytes().to_vec(); v.extend(t); v.extend(d); v }
fn find(v: &[u8], n: &[u8]) -> usize { v.windows(n.len()).position(|w| w == n).unwrap() }
fn main() {
    let mut meta = vec![0; 4];
    meta.extend(bx(b"hdlr", b"\\0\\0\\0\\0\\0\\0\\0\\0pict\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0"));
    meta.extend(bx(b"pitm", b"\\0\\0\\0\\0\\0\\x01"));
    let mut iinf = b"\\0\\0\\0\\0\\0\\x01".to_vec(); iinf.extend(bx(b"infe", b"\\x02\\0\\0\\0\\0\\x01\\0\\0hvc1\\0"));
    meta.extend(bx(b"iinf", &iinf));
    // version 2, 4 byte offsets and lengths, one item, one extent
    let iloc = b"\\x02\\0\\0\\0\\x44\\0\\0\\0\\0\\x01\\0\\0\\0\\x01\\0\\0\\0\\0\\0\\x01\\0\\0\\0\\0\\0\\0\\0\\x06".to_vec();
    let il = bx(b"iloc", &iloc);
    meta.extend(&il);
    let mut v = bx(b"ftyp", b"heic\\0\\0\\0\\0heic"); v.extend(bx(b"meta", &meta)); v.extend(bx(b"mdat", b"pixels"));
    let p = (find(&v, b"pixels") as u32).to_be_bytes(); let at = find(&v, b"iloc") - 4 + il.len() - 8;
    v[at..at + 4].copy_from_slice(&p);
    let mut m = Metadata::new();
    m.set_tag(ExifTag::Orientation(vec![3]));
    m.write_to_vec(&mut v, FileExtension::HEIF).unwrap();
    let a = find(&v, b"iloc") + 4;
    // version, flags, sizes, item count 2, then the first item
    assert_eq!(&v[a..a + 10], b"\\x02\\0\\0\\0\\x44\\0\\0\\0\\0\\x02");
    assert_eq!(&v[a + 10..a + 14], b"\\0\\0\\0\\x01");
    assert_eq!(&v[a + 14..a + 20], b"\\0\\0\\0\\0\\0\\x01");
    let off = u32::from_be_bytes(v[a + 20..a + 24].try_into().unwrap()) as usize;
    assert_eq!(&v[off..off + 6], b"pixels");
}
'''),
dict(id='upper-case-ext', property='C19', needs='a file name extension in upper or mixed case',
 breaks='both places that fold the case of the extension lost it, files such as IMG_0001.JPG are refused',
 edits=[('src/filetype.rs','''        match input.to_lowercase().as_str()''','''        match input'''),
        ('src/filetype.rs','''    FileExtension::from_str(file_type_str.to_lowercase().as_str()).map_err(|e| ''','''    FileExtension::from_str(file_type_str).map_err(|e| ''')],
 demo=JH+'''
fn main() {
    let v = jpeg(&[(0xe0, b"JFIF\\0")], b"\\x01\\x02\\x03");
    let mut m = Metadata::new();
    m.set_tag(ExifTag::Orientation(vec![3]));
    for n in ["a.jpg", "b.JPG", "c.JpEg"] {
        std::fs::write(n, &v).unwrap();
        m.write_to_file(std::path::Path::new(n)).unwrap();
        assert_eq!(Metadata::new_from_path(std::path::Path::new(n)).unwrap().into_iter().count(), 1);
    }
}
'''),
dict(id='reduce-ifd1-exif', property='C22', needs='a metadata object with an EXIF or GPS directory under IFD1',
 breaks='only the EXIF, GPS and interoperability directories of IFD0 are removed by a reduction',
 edits=[('src/metadata/edit.rs','''retain(|ifd| ifd.get_ifd_type() == ExifTagGroup::GENERIC);''','''retain(|ifd| ifd.get_ifd_type() == ExifTagGroup::GENERIC || ifd.get_generic_ifd_nr() > 0);''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageWidth(vec![3]));
    m.set_tag(ExifTag::ISO(vec![100]));
    m.get_ifd_mut(ExifTagGroup::GENERIC, 1).set_tag(ExifTag::ImageWidth(vec![4]));
    m.get_ifd_mut(ExifTagGroup::GPS, 1).set_tag(ExifTag::GPSLatitudeRef("N".into()));
    m.reduce_to_a_minimum();
    assert_eq!(m.into_iter().count(), 2);
    assert!(m.get_ifds().iter().all(|i| i.get_ifd_type() == ExifTagGroup::GENERIC));
}
'''),
dict(id='unknown-string-count', property='C26', needs='the component count of a string tag the library does not know',
 breaks='the terminator is not counted for unknown string tags, other than for known ones',
 edits=[('src/exif_tag/mod.rs','''ExifTag::UnknownSTRING(         value, _, _) => value.len() as u32 + 1,''','''ExifTag::UnknownSTRING(         value, _, _) => value.len() as u32,''')],
 demo=JH+'''
fn main() {
    let t = ExifTag::UnknownSTRING("abc".into(), 0xc123, ExifTagGroup::GENERIC);
    assert_eq!(t.number_of_components(), 4);
}
'''),
dict(id='webp-short-write', property='C27', needs='a write call that handles fewer bytes than it was given (a full disk, a network file system, a signal) while the file is cleared',
 breaks='the number of bytes written is ignored when the rest of the file is moved down, the end of the image is lost and success is reported',
 edits=[('src/webp/file.rs','''        // ...and overwrite the EXIF chunk...
        file.write_all(&buffer)?;''','''        // ...and overwrite the EXIF chunk...
        let _bytes_written = file.write(&buffer)?;''')],
 demo=JH+'''
use std::sync::atomic::{AtomicI64, Ordering};
static LEFT: AtomicI64 = AtomicI64::new(-1);
extern "C" { fn syscall(n: i64, ...) -> i64; }
/// Replaces the C library's function: the call chosen by LEFT handles only half of the bytes.
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let n = if fd > 2 && n > 1 && LEFT.fetch_sub(1, Ordering::SeqCst) == 0 { n / 2 } else { n };
    syscall(1, fd as i64, buf, n) as isize
}
fn main() {
    let t = b"II\\x2a\\0\\x08\\0\\0\\0\\0\\0\\0\\0\\0\\0".to_vec();
    let img = (&b"VP8 "[..], vec![7u8; 20]);
    let v = riff(&[(b"VP8X", vec![0x0c, 0, 0, 0, 9, 0, 0, 9, 0, 0]), img.clone(), (b"EXIF", t), (b"XMP ", vec![1, 2, 3, 4, 5, 6])]);
    let want = riff(&[(b"VP8X", vec![0x04, 0, 0, 0, 9, 0, 0, 9, 0, 0]), img, (b"XMP ", vec![1, 2, 3, 4, 5, 6])]);
    for k in 0..6 {
        std::fs::write("a.webp", &v).unwrap();
        LEFT.store(k, Ordering::SeqCst);
        let r = Metadata::file_clear_metadata(std::path::Path::new("a.webp"));
        LEFT.store(-1, Ordering::SeqCst);
        let now = std::fs::read("a.webp").unwrap();
        match r { Ok(()) => assert_eq!(now, want), Err(_) => assert_eq!(now, v) }
    }
}
'''),

dict(id='strip-odd', property='C21', needs='a TIFF with at least two strips, one of them other than the last with an odd number of bytes',
 breaks='the offset is advanced to an even number behind a strip, the data is not: later strips are read from the wrong place',
 edits=[('src/ifd/mod.rs','''                                *current_offset += strip.len() as u32;''','''                                *current_offset += (strip.len() as u32 + 1) & !1;''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    for t in [ExifTag::ImageWidth(vec![3]), ExifTag::ImageHeight(vec![2]), ExifTag::Compression(vec![1]), ExifTag::PhotometricInterpretation(vec![1]),
        ExifTag::RowsPerStrip(vec![1]), ExifTag::XResolution(vec![72.0.into()]), ExifTag::YResolution(vec![72.0.into()]), ExifTag::ResolutionUnit(vec![2]),
        ExifTag::StripOffsets(vec![], vec![vec![1, 2, 3], vec![4, 5, 6]]), ExifTag::StripByteCounts(vec![3, 3])] { m.set_tag(t); }
    let mut v = b"II\\x2a\\0\\x08\\0\\0\\0\\0\\0\\0\\0\\0\\0".to_vec();
    m.write_to_vec(&mut v, FileExtension::TIFF).unwrap();
    let mut r = Metadata::new_from_vec(&v, FileExtension::TIFF).unwrap();
    r.set_tag(ExifTag::ImageDescription("edited".into()));
    r.write_to_vec(&mut v, FileExtension::TIFF).unwrap();
    let r = Metadata::new_from_vec(&v, FileExtension::TIFF).unwrap();
    match r.get_tag_by_hex(0x111, None).next() {
        Some(ExifTag::StripOffsets(_, d)) => assert_eq!(d, &vec![vec![1u8, 2, 3], vec![4, 5, 6]]),
        _ => panic!(),
    }
}
'''),
dict(id='fraction-tolerance', property='C25', needs='a number that is close to, but not equal to, a simple fraction (within 1e-7, not 1e-9)',
 breaks='the expansion into a fraction stops too early, such numbers are replaced by the simple fraction',
 edits=[('src/rational.rs','''const CONVERGENCE_TOLERANCE: f64   = 1e-9;''','''const CONVERGENCE_TOLERANCE: f64   = 1e-7;''')],
 demo=JH+'''
use little_exif::rational::{iR64, uR64};
fn main() {
    for x in [0.5, 1.0 / 3.0, 2.00000005, 7.00000002, 1234.5] {
        let u: uR64 = x.into(); let i: iR64 = x.into();
        let (a, b): (f64, f64) = (u.into(), i.into());
        assert!((a - x).abs() <= x * 1e-9 && (b - x).abs() <= x * 1e-9, "{x} became {a} and {b}");
    }
}
'''),
dict(id='iloc-index-none', property='C08', needs='a HEIF image without Exif item whose item location box stores extent indices (index_size 4 or 8)',
 breaks='the new item has no extent index, storing it panics',
 edits=[('src/heif/boxes/item_location.rs','''extent_index:  Some(0),''','''extent_index:  None,''')],
 demo=JH+'''
fn bx(t: &[u8], d: &[u8]) -> Vec<u8> { let mut v = ((d.len() + 8) as u32).to_be_bytes().to_vec(); v.extend(t); v.extend(d); v }
fn main() {
    for ix in [0u8, 4, 8] {
        let mut meta = vec![0; 4];
        meta.extend(bx(b"hdlr", b"\\0\\0\\0\\0\\0\\0\\0\\0pict\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0\\0"));
        meta.extend(bx(b"pitm", b"\\0\\0\\0\\0\\0\\x01"));
        let mut iinf = b"\\0\\0\\0\\0\\0\\x01".to_vec(); iinf.extend(bx(b"infe", b"\\x02\\0\\0\\0\\0\\x01\\0\\0hvc1\\0"));
        meta.extend(bx(b"iinf", &iinf));
        let mut iloc = vec![1, 0, 0, 0, 0x44, ix, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1];
        iloc.extend(vec![0; ix as usize]); iloc.extend([0, 0, 0, 0, 0, 0, 0, 6]);
        let il = bx(b"iloc", &iloc);
        meta.extend(&il);
        let mut v = bx(b"ftyp", b"heic\\0\\0\\0\\0heic"); v.extend(bx(b"meta", &meta)); v.extend(bx(b"mdat", b"pixels"));
        let p = ((v.len() - 6) as u32).to_be_bytes(); let at = v.len() - 14 - 8;
        v[at..at + 4].copy_from_slice(&p);
        let mut m = Metadata::new();
        m.set_tag(ExifTag::Orientation(vec![3]));
        let _ = m.write_to_vec(&mut v, FileExtension::HEIF);
    }
}
'''),
dict(id='heif-export-header', property='C23', needs='the item data exported for HEIF, compared with the one a write embeds',
 breaks='the exported item has no EXIF identifier in front of the TIFF header, the one embedded in an image has',
 edits=[('src/heif/mod.rs','''    data_buffer.extend(vec![0u8, 0u8, 0u8, 6u8]);

    // Actual EXIF HEADER
    data_buffer.extend(EXIF_HEADER.iter());
''','''    data_buffer.extend(vec![0u8, 0u8, 0u8, 0u8]);
''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::Orientation(vec![3]));
    let h = m.as_u8_vec(FileExtension::HEIF).unwrap();
    let mut want = b"\\0\\0\\0\\x06Exif\\0\\0".to_vec();
    want.extend(m.encode().unwrap());
    assert_eq!(h, want);
}
'''),
]
