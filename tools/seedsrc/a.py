JH='''
use little_exif::{metadata::Metadata, exif_tag::ExifTag, filetype::FileExtension, ifd::ExifTagGroup};
#[allow(dead_code)]
fn jpeg(segs: &[(u8, &[u8])], scan: &[u8]) -> Vec<u8> {
    let mut v = vec![0xff, 0xd8];
    for (m, d) in segs { v.extend([0xff, *m]); v.extend(((d.len() + 2) as u16).to_be_bytes()); v.extend(*d); }
    v.extend([0xff, 0xda, 0, 8, 1, 1, 0, 0, 0x3f, 0]);
    v.extend(scan);
    v.extend([0xff, 0xd9]);
    v
}
#[allow(dead_code)]
fn riff(chunks: &[(&[u8], Vec<u8>)]) -> Vec<u8> {
    let mut b = b"WEBP".to_vec();
    for (t, d) in chunks { b.extend(*t); b.extend((d.len() as u32).to_le_bytes()); b.extend(d); if d.len() % 2 == 1 { b.push(0) } }
    let mut v = b"RIFF".to_vec(); v.extend((b.len() as u32).to_le_bytes()); v.extend(b); v
}
#[allow(dead_code, unused_imports)]
fn keep(_: ExifTagGroup, _: FileExtension, _: ExifTag, _: Metadata) {}
'''
SEEDS=[
dict(id='jpeg-rst7', property='C02', needs='a scan with at least eight restart intervals, so that an RST7 marker occurs inside the entropy-coded data',
 breaks='the scan end is detected at RST7, entropy-coded bytes are then interpreted as segment lengths and the write fails or removes image data',
 edits=[('src/jpg.rs','''                0xd6 |
                0xd7 |
''','''                0xd6 |
''')],
 demo=JH+'''
fn main() {
    let mut scan = vec![1, 2, 3];
    for i in 0..8u8 { scan.extend([0x11, 0x22, 0xff, 0xd0 + i, 0, 1]); }
    scan.extend([0x55; 9]);
    let orig = jpeg(&[(0xe0, b"JFIF\\0\\x01\\x02\\0\\0\\x01\\0\\x01\\0\\0"), (0xdb, &[0; 65])], &scan);
    let mut v = orig.clone();
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageDescription("hello".into()));
    m.write_to_vec(&mut v, FileExtension::JPEG).unwrap();
    assert!(v.ends_with(&orig[2..]), "image data changed");
    Metadata::clear_metadata(&mut v, FileExtension::JPEG).unwrap();
    assert_eq!(v, orig);
}
'''),
dict(id='jpeg-adjacent', property='C17', needs='two APP13 (or APP12, EXIF) segments directly behind each other',
 breaks='after a segment was removed the segment that moved to its place is not examined, so every second one of adjacent segments stays',
 edits=[('src/jpg.rs','''                    // Seek to start of next segment
                    cursor.set_position(backup_position);
''','''                    // Seek to start of next segment
                    cursor.set_position(backup_position + 2);
''')],
 demo=JH+'''
fn main() {
    let mut v = jpeg(&[(0xe0, b"JFIF\\0"), (0xed, b"Photoshop 3.0\\0abc"), (0xed, b"Photoshop 3.0\\0def"), (0xfe, b"comment")], b"\\x01\\x02\\x03");
    let want = jpeg(&[(0xe0, b"JFIF\\0"), (0xfe, b"comment")], b"\\x01\\x02\\x03");
    Metadata::clear_app13_segment(&mut v, FileExtension::JPEG).unwrap();
    assert_eq!(v, want);
}
'''),
dict(id='webp-two-exif-delta', property='C03', needs='a WebP image with two EXIF chunks of different size, cleared in memory',
 breaks='the RIFF size is only reduced by the last EXIF chunk that was removed',
 edits=[('src/webp/vec.rs','''        delta -= parsed_chunk_byte_count as i32;''','''        delta = -(parsed_chunk_byte_count as i32);''')],
 demo=JH+'''
fn main() {
    let x = vec![0x08, 0, 0, 0, 9, 0, 0, 9, 0, 0];
    let mut x0 = x.clone(); x0[0] = 0;
    let t = b"II\\x2a\\0\\x08\\0\\0\\0\\0\\0\\0\\0\\0\\0".to_vec();
    let mut t2 = t.clone(); t2.extend([0; 6]);
    let img = (&b"VP8 "[..], vec![7u8; 20]);
    let mut v = riff(&[(b"VP8X", x), img.clone(), (b"EXIF", t), (b"XMP ", vec![1, 2, 3]), (b"EXIF", t2)]);
    Metadata::clear_metadata(&mut v, FileExtension::WEBP).unwrap();
    assert_eq!(v, riff(&[(b"VP8X", x0), img, (b"XMP ", vec![1, 2, 3])]));
}
'''),
dict(id='thumb-odd', property='C12', needs='a thumbnail with an odd number of bytes',
 breaks='the running offset is advanced beyond the data that was written, all later offsets in the block are off by one',
 edits=[('src/ifd/mod.rs','''                            *current_offset += thumbnail_data.len() as u32;''','''                            *current_offset += (thumbnail_data.len() as u32 + 1) & !1;''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::Orientation(vec![1]));
    let i = m.get_ifd_mut(ExifTagGroup::GENERIC, 1);
    i.set_tag(ExifTag::ThumbnailOffset(vec![], vec![9; 27]));
    i.set_tag(ExifTag::ThumbnailLength(vec![27]));
    i.set_tag(ExifTag::ImageDescription("behind the thumbnail".into()));
    let e = m.encode().unwrap();
    let r = Metadata::new_from_vec(&e, FileExtension::TIFF).unwrap();
    // Artist-like tags with a number above the thumbnail's are stored behind it
    let mut m2 = m.clone();
    m2.get_ifd_mut(ExifTagGroup::GENERIC, 1).set_tag(ExifTag::Copyright("0123456789".into()));
    let r2 = Metadata::new_from_vec(&m2.encode().unwrap(), FileExtension::TIFF).unwrap();
    assert!(r.get_tag(&ExifTag::ImageDescription(String::new())).any(|t| matches!(t, ExifTag::ImageDescription(s) if s == "behind the thumbnail")));
    assert!(r2.get_tag(&ExifTag::Copyright(String::new())).any(|t| matches!(t, ExifTag::Copyright(s) if s == "0123456789")));
}
'''),
dict(id='link-back', property='C15', needs='a chain of directories in which a following directory is stored in front of the preceding one',
 breaks='a link to a lower offset is taken for the end of the chain (as a guard against cycles), the following directories are lost',
 edits=[('src/ifd/mod.rs',"""        if link_is_zero
        {""","""        let points_backwards = from_u8_vec_res_macro!(u32, &next_ifd_link_buffer, endian)? as u64 + data_begin_position < data_cursor.position();
        if link_is_zero || points_backwards
        {""")],
 demo=JH+'''
fn main() {
    // II, directory 1 with one tag at 8, directory 0 with one tag at 26
    let mut b = b"II\\x2a\\0\\x1a\\0\\0\\0".to_vec();
    b.extend([1, 0, 0x12, 1, 3, 0, 1, 0, 0, 0, 6, 0, 0, 0, 0, 0, 0, 0]);
    b.extend([1, 0, 0x12, 1, 3, 0, 1, 0, 0, 0, 3, 0, 0, 0, 8, 0, 0, 0]);
    let m = Metadata::new_from_vec(&b, FileExtension::TIFF).unwrap();
    assert_eq!(m.get_max_generic_ifd_number(), 1);
    assert!(m.get_ifd(ExifTagGroup::GENERIC, 1).is_some());
}
'''),
dict(id='remove-last-ifd', property='C10', needs='a tag that is present in a directory with a number above zero and is removed by removing the tag from the whole object',
 breaks='the directory with the highest number is not visited when a tag is removed',
 edits=[('src/metadata/set.rs','''		for ifd_number in 0..=self.get_max_generic_ifd_number()''','''		for ifd_number in 0..self.get_max_generic_ifd_number().max(1)''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageDescription("a".into()));
    m.get_ifd_mut(ExifTagGroup::GENERIC, 2).set_tag(ExifTag::ImageDescription("b".into()));
    m.remove_tag(ExifTag::ImageDescription(String::new()));
    assert_eq!(m.get_tag(&ExifTag::ImageDescription(String::new())).count(), 0);
}
'''),
dict(id='create-parent', property='C11', needs='a sub-directory that is requested for a directory number above zero whose parent does not exist yet',
 breaks='the directories it hangs from are created under number zero instead',
 edits=[('src/metadata/mod.rs','''            self.create_ifd(parent_ifd_group, generic_ifd_nr);''','''            self.create_ifd(parent_ifd_group, generic_ifd_nr.min(self.get_max_generic_ifd_number()));''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::Orientation(vec![1]));
    m.create_ifd(ExifTagGroup::GPS, 1);
    assert!(m.get_ifd(ExifTagGroup::GENERIC, 1).is_some());
    assert_eq!(m.get_max_generic_ifd_number(), 1);
}
'''),
dict(id='xmp-prefix', property='C16', needs='an XMP packet with attributes of a namespace prefix that merely starts with exif, such as exifEX',
 breaks='attributes of the exifEX namespace are removed from the packet as well',
 edits=[('src/xmp.rs','''                        !key.starts_with("exif:")''','''                        !key.starts_with("exif")''')],
 demo=JH+'''
fn crc(d: &[u8]) -> u32 { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 } } } !c }
fn chunk(v: &mut Vec<u8>, t: &[u8], d: &[u8]) { v.extend((d.len() as u32).to_be_bytes()); let mut x = t.to_vec(); x.extend(d); v.extend(&x); v.extend(crc(&x).to_be_bytes()); }
fn main() {
    let mut v = vec![0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a];
    chunk(&mut v, b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]);
    let mut x = b"XML:com.adobe.xmp\\0\\0\\0\\0\\0".to_vec();
    x.extend(b"<r:RDF xmlns:r=\\"u\\"><r:Description exif:Flash=\\"1\\" exifEX:LensModel=\\"keep me\\" tiff:Make=\\"m\\"/></r:RDF>");
    chunk(&mut v, b"iTXt", &x);
    chunk(&mut v, b"IDAT", &[1, 2, 3]);
    chunk(&mut v, b"IEND", &[]);
    Metadata::clear_metadata(&mut v, FileExtension::PNG { as_zTXt_chunk: true }).unwrap();
    let s = String::from_utf8_lossy(&v).into_owned();
    assert!(!s.contains("exif:Flash"));
    assert!(s.contains("exifEX:LensModel=\\"keep me\\"") && s.contains("tiff:Make=\\"m\\""), "foreign attribute lost");
}
'''),
dict(id='vp8-height-mask', property='C20', needs='a simple lossy WebP whose height has a scaling factor set or is 8192 or more',
 breaks='the canvas height of the VP8X chunk is not the height in the bitstream',
 edits=[('src/webp/mod.rs','''    let height = height_info & bitmask_14;''','''    let height = height_info & (bitmask_14 >> 1);''')],
 demo=JH+'''
fn main() {
    let mut d = vec![0x10, 0x02, 0, 0x9d, 0x01, 0x2a];
    d.extend(100u16.to_le_bytes()); d.extend(9001u16.to_le_bytes()); d.extend([0; 10]);
    let mut v = riff(&[(b"VP8 ", d)]);
    let mut m = Metadata::new(); m.set_tag(ExifTag::ImageDescription("x".into()));
    m.write_to_vec(&mut v, FileExtension::WEBP).unwrap();
    assert_eq!(&v[12..16], b"VP8X");
    assert_eq!(&v[24..30], &[99, 0, 0, (9000 & 0xff) as u8, (9000 >> 8) as u8, 0]);
}
'''),
dict(id='int8-sign', property='C14', needs='a tag that is defined as 16 bit but stored as 8 bit values above 127',
 breaks='values above 127 are sign-extended when they are widened',
 edits=[('src/exif_tag/decode.rs','''int8u_data.into_iter().map(|x| x as u16).collect::<Vec<u16>>()''','''int8u_data.into_iter().map(|x| x as i8 as u16).collect::<Vec<u16>>()''')],
 demo=JH+'''
fn main() {
    // BitsPerSample (0x0102, INT16U) stored as three INT8U
    let mut b = b"II\\x2a\\0\\x08\\0\\0\\0".to_vec();
    b.extend([1, 0, 2, 1, 1, 0, 3, 0, 0, 0, 8, 127, 200, 0, 0, 0, 0, 0]);
    let m = Metadata::new_from_vec(&b, FileExtension::TIFF).unwrap();
    let t = m.get_tag_by_hex(0x102, None).next().unwrap();
    assert!(matches!(t, ExifTag::BitsPerSample(v) if *v == vec![8, 127, 200]), "{t:?}");
}
'''),
dict(id='string-inner-nul', property='C24', needs='a string value with a NUL character in the middle',
 breaks='everything behind the first NUL character of a string is dropped when it is read and thus lost when the metadata is written back',
 edits=[('src/u8conversion.rs','''            return Ok(utf8_decode_result.trim_end_matches('\\0').to_string());''','''            return Ok(utf8_decode_result.split('\\0').next().unwrap_or_default().to_string());''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::Copyright("photographer\\0editor".into()));
    m.set_tag(ExifTag::ImageDescription("a".into()));
    let mut r = Metadata::new_from_vec(&m.encode().unwrap(), FileExtension::TIFF).unwrap();
    r.set_tag(ExifTag::ImageDescription("b".into()));
    let r = Metadata::new_from_vec(&r.encode().unwrap(), FileExtension::TIFF).unwrap();
    assert!(matches!(r.get_tag_by_hex(0x8298, None).next(), Some(ExifTag::Copyright(s)) if s == "photographer\\0editor"));
}
'''),
dict(id='be-rational', property='C13', needs='a signed rational value in big endian order',
 breaks='the denominator of signed rationals is written in little endian order regardless of the byte order of the block',
 edits=[('src/u8conversion.rs','''impl U8conversion<iR64> for iR64
{
    fn
    to_u8_vec
    (
        &self,
        endian: &Endian
    )
    -> Vec<u8>
    {
        let mut u8_vec = self.nominator.to_u8_vec(endian);
        u8_vec.extend(self.denominator.to_u8_vec(endian));''','''impl U8conversion<iR64> for iR64
{
    fn
    to_u8_vec
    (
        &self,
        endian: &Endian
    )
    -> Vec<u8>
    {
        let mut u8_vec = self.nominator.to_u8_vec(endian);
        u8_vec.extend(self.denominator.to_u8_vec(&Endian::Little));''')],
 demo=JH+'''
use little_exif::rational::iR64;
fn main() {
    let b = vec![0x4d, 0x4d, 0, 0x2a, 0, 0, 0, 8, 0, 0, 0, 0, 0, 0];
    let mut m = Metadata::new_from_vec(&b, FileExtension::TIFF).unwrap();
    m.set_tag(ExifTag::ExposureCompensation(vec![iR64 { nominator: -2, denominator: 3 }]));
    let r = Metadata::new_from_vec(&m.encode().unwrap(), FileExtension::TIFF).unwrap();
    match r.get_tag_by_hex(0x9204, None).next() { Some(ExifTag::ExposureCompensation(v)) => { assert_eq!(v[0].nominator, -2); assert_eq!(v[0].denominator, 3) } t => panic!("{t:?}") }
}
'''),
]
