exec(open('/verif/tools/seedsrc/b.py').read().split('\nSEEDS=[')[0])
SEEDS=[
dict(id='png-xmp-once', property='C16', needs='a PNG with two XMP text chunks',
 breaks='only the first packet is rewritten: EXIF stays in the second, and carriers behind it stay, too',
 edits=[('src/png/mod.rs','''clear_exif_from_xmp_metadata(&mut cursor, &chunk_data)?;
                    continue;''','''clear_exif_from_xmp_metadata(&mut cursor, &chunk_data)?;
                    break;''')],
 demo=PNGH+'''
fn main() {
    let x = |n: &str| { let mut d = b"XML:com.adobe.xmp\\0\\0\\0\\0\\0".to_vec(); d.extend(format!("<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description xmlns:exif='http://ns.adobe.com/exif/1.0/' exif:{n}='4'/></rdf:RDF></x:xmpmeta>").bytes()); d };
    let mut v = png(&[(b"IHDR", ihdr()), (b"iTXt", x("PixelXDimension")), (b"iTXt", x("PixelYDimension")), (b"IDAT", vec![1, 2, 3]), (b"IEND", vec![])]);
    Metadata::clear_metadata(&mut v, FileExtension::PNG { as_zTXt_chunk: true }).unwrap();
    let has = |n: &[u8]| v.windows(n.len()).any(|w| w == n);
    assert!(!has(b"exif:PixelXDimension"));
    assert!(!has(b"exif:PixelYDimension"));
}
'''),
dict(id='gps-method-nul', property='C14', needs='a GPSProcessingMethod stored as a string that holds NUL bytes (e.g. the code of its character set)',
 breaks='the NUL bytes are dropped when the value is converted',
 edits=[('src/exif_tag/decode.rs','set_value_to_undef(raw_data.clone())','set_value_to_undef(raw_data.iter().copied().filter(|b| *b != 0).collect())')],
 demo=PNGH+'''
fn main() {
    let v = b"ASCII\\0\\0\\0NETWORK\\0";
    let mut b = b"MM\\0\\x2a\\0\\0\\0\\x08\\0\\x01\\x88\\x25\\0\\x04\\0\\0\\0\\x01\\0\\0\\0\\x1a\\0\\0\\0\\0".to_vec();
    b.extend(b"\\0\\x01\\0\\x1b\\0\\x02\\0\\0\\0\\x10\\0\\0\\0\\x2c\\0\\0\\0\\0");
    b.extend(v);
    let mut s = vec![0xff, 0xd8, 0xff, 0xe1];
    s.extend(((b.len() + 8) as u16).to_be_bytes()); s.extend(b"Exif\\0\\0"); s.extend(b); s.extend([0xff, 0xd9]);
    let r = Metadata::new_from_vec(&s, FileExtension::JPEG).unwrap();
    assert_eq!(r.get_tag(&ExifTag::GPSProcessingMethod(vec![])).next(), Some(&ExifTag::GPSProcessingMethod(v.to_vec())));
}
'''),
dict(id='jxl-box-order', property='C06', needs='writing metadata to a JPEG XL image in a container',
 breaks='the EXIF box is put in front of the file type box, which has to be the second one',
 edits=[('src/jxl.rs','''            IsoBmffBoxType::JXL |
            IsoBmffBoxType::FTYP => {''','''            IsoBmffBoxType::JXL => {''')],
 demo=JH+'''
fn main() {
    let mut v = vec![0, 0, 0, 12]; v.extend(b"JXL \\r\\n\\x87\\n");
    v.extend(b"\\0\\0\\0\\x14ftypjxl \\0\\0\\0\\0jxl ");
    v.extend(b"\\0\\0\\0\\x0cjxlc\\xff\\x0a\\x01\\x02");
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageDescription("x".into()));
    m.write_to_vec(&mut v, FileExtension::JXL).unwrap();
    assert_eq!(&v[16..20], b"ftyp");
}
'''),
]
