ns={}; exec(open('/verif/tools/seedsrc/a.py').read(),ns); JH=ns['JH']
SEEDS=[
dict(id='png-hex-case', property='C01', needs='a raw EXIF profile in a PNG text chunk whose bytes are written with upper-case hex digits',
 breaks='upper-case digits are skipped when the profile is read, the EXIF data comes out wrong',
 edits=[('src/png/mod.rs','''        if let Ok(value) = u8::from_str_radix(value_string.trim(), 16)''','''        let digits = value_string.trim().trim_matches(['A', 'B', 'C', 'D', 'E', 'F']);
        if let Ok(value) = u8::from_str_radix(digits, 16)''')],
 demo=JH+'''
fn crc(d: &[u8]) -> u32 { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xedb88320 ^ (c >> 1) } else { c >> 1 } } } !c }
fn chunk(v: &mut Vec<u8>, t: &[u8], d: &[u8]) { v.extend((d.len() as u32).to_be_bytes()); let mut x = t.to_vec(); x.extend(d); v.extend(&x); v.extend(crc(&x).to_be_bytes()); }
fn adler(d: &[u8]) -> u32 { let (mut a, mut b) = (1u32, 0u32); for x in d { a = (a + *x as u32) % 65521; b = (b + a) % 65521; } (b << 16) | a }
fn png(text: &str) -> Vec<u8> {
    let mut z = vec![0x78, 1, 1];
    z.extend((text.len() as u16).to_le_bytes()); z.extend((!(text.len() as u16)).to_le_bytes()); z.extend(text.as_bytes()); z.extend(adler(text.as_bytes()).to_be_bytes());
    let mut p = b"Raw profile type exif\\0\\0".to_vec(); p.extend(z);
    let mut v = vec![0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a];
    chunk(&mut v, b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 0, 0, 0, 0]);
    chunk(&mut v, b"zTXt", &p);
    chunk(&mut v, b"IDAT", &[1, 2, 3]);
    chunk(&mut v, b"IEND", &[]);
    v
}
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageDescription("JKLMNOZjklmnoz".into()));
    let mut d = b"Exif\\0\\0".to_vec(); d.extend(m.encode().unwrap());
    for upper in [false, true] {
        let mut t = format!("\\nexif\\n{:>8}\\n", d.len());
        for (i, b) in d.iter().enumerate() { t += &if upper { format!("{b:02X}") } else { format!("{b:02x}") }; if i % 36 == 35 { t.push('\\n') } }
        t.push('\\n');
        let r = Metadata::new_from_vec(&png(&t), FileExtension::PNG { as_zTXt_chunk: true }).unwrap();
        assert!(matches!(r.get_tag_by_hex(0x10e, None).next(), Some(ExifTag::ImageDescription(s)) if s == "JKLMNOZjklmnoz"), "{upper}");
    }
}
'''),
dict(id='chain-100', property='C15', needs='a chain of more than a hundred directories',
 breaks='the chain is cut after a hundred directories, the following ones are lost',
 edits=[('src/metadata/mod.rs','''        while let Some(ifd_offset) = ifd_offset_option
''','''        while let Some(ifd_offset) = ifd_offset_option.filter(|_| generic_ifd_nr <= 100)
''')],
 demo=JH+'''
fn main() {
    let mut b = b"II\\x2a\\0\\x08\\0\\0\\0".to_vec();
    let n = 140u32;
    for i in 0..n {
        b.extend([1, 0, 0x12, 1, 3, 0, 1, 0, 0, 0, (i % 8 + 1) as u8, 0, 0, 0]);
        b.extend((if i + 1 == n { 0 } else { 8 + 18 * (i + 1) }).to_le_bytes());
    }
    let m = Metadata::new_from_vec(&b, FileExtension::TIFF).unwrap();
    assert_eq!(m.get_max_generic_ifd_number(), n - 1);
    assert!(m.get_ifd(ExifTagGroup::GENERIC, n - 1).is_some());
}
'''),
dict(id='sparse-chain', property='C11', needs='a metadata object with a directory number above one while a lower number has no directory',
 breaks='the missing directory is left out of the chain instead of written empty, so the following directories get a lower number',
 edits=[('src/metadata/mod.rs','''        for n in 0..=generic_ifd_count
''','''        for n in (0..=generic_ifd_count).filter(|n| *n == 0 || self.image_file_directories.iter().any(|ifd| ifd.get_generic_ifd_nr() == *n))
''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageDescription("zero".into()));
    m.get_ifd_mut(ExifTagGroup::GENERIC, 2).set_tag(ExifTag::ImageDescription("two".into()));
    let r = Metadata::new_from_vec(&m.encode().unwrap(), FileExtension::TIFF).unwrap();
    assert!(r.get_ifd(ExifTagGroup::GENERIC, 2).is_some_and(|i| i.get_tags().iter().any(|t| matches!(t, ExifTag::ImageDescription(s) if s == "two"))));
}
'''),
dict(id='string-leading-nul', property='C14', needs='a string value that begins with a NUL character',
 breaks='leading NUL characters of strings are dropped when they are read',
 edits=[('src/u8conversion.rs','''            return Ok(utf8_decode_result.trim_end_matches('\\0').to_string());''','''            return Ok(utf8_decode_result.trim_matches('\\0').to_string());''')],
 demo=JH+'''
fn main() {
    let mut b = b"II\\x2a\\0\\x08\\0\\0\\0".to_vec();
    b.extend([1, 0, 0x0e, 1, 2, 0, 4, 0, 0, 0, 0, b'a', b'b', 0, 0, 0, 0, 0]);
    let m = Metadata::new_from_vec(&b, FileExtension::TIFF).unwrap();
    match m.get_tag_by_hex(0x10e, None).next() { Some(ExifTag::ImageDescription(s)) => assert_eq!(s, "\\0ab"), t => panic!("{t:?}") }
}
'''),
dict(id='read-cache-size', property='C29', needs='a JPEG file that is replaced by another one of the same size between two reads of the same name within the same clock tick',
 breaks='the second read returns the metadata of the file as it was at the first read',
 edits=[('src/metadata/metadata_io.rs','''        let file_type = extension_based_file_type;

        // Call the file specific decoders as a starting point for obtaining
        // the raw EXIF data that gets further processed
        let raw_pre_decode_general = match file_type
        {
            FileExtension::HEIF
                => heif::file_read_metadata(path),''','''        // Reading the same file again and again does not have to parse it again
        static LAST_READ: std::sync::Mutex<Option<(std::path::PathBuf, u64, u64, Vec<u8>)>> = std::sync::Mutex::new(None);
        let file_type = { extension_based_file_type };
        let info = std::fs::metadata(path)?;
        let age  = info.modified()?.duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_secs();
        if let Some((last_path, last_size, last_age, raw)) = &*LAST_READ.lock().unwrap()
        {
            if last_path == path && *last_size == info.len() && *last_age == age
            {
                return Self::general_decoding_wrapper(Ok(raw.clone()));
            }
        }
        if file_type == FileExtension::JPEG
        {
            if let Ok(raw) = jpg::file_read_metadata(path)
            {
                *LAST_READ.lock().unwrap() = Some((path.to_path_buf(), info.len(), age, raw));
            }
        }

        // Call the file specific decoders as a starting point for obtaining
        // the raw EXIF data that gets further processed
        let raw_pre_decode_general = match file_type
        {
            FileExtension::HEIF
                => heif::file_read_metadata(path),''')],
 demo=JH+'''
fn main() {
    let p = std::path::Path::new("a.jpg");
    for round in 0..5 {
        for text in ["first", "other"] {
            let mut v = jpeg(&[(0xe0, b"JFIF\\0\\x01\\x02\\0\\0\\x01\\0\\x01\\0\\0")], b"\\x01\\x02\\x03");
            let mut m = Metadata::new();
            m.set_tag(ExifTag::ImageDescription(text.into()));
            m.write_to_vec(&mut v, FileExtension::JPEG).unwrap();
            std::fs::write(p, &v).unwrap();
            let r = Metadata::new_from_path(p).unwrap();
            assert!(matches!(r.get_tag_by_hex(0x10e, None).next(), Some(ExifTag::ImageDescription(s)) if s == text), "{round} {text}");
        }
    }
}
'''),
]
