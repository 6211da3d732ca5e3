exec(open('/verif/tools/seedsrc/b.py').read().split('\nSEEDS=[')[0])
SEEDS=[
dict(id='be-tiff-magic', property='C19', needs='a big-endian TIFF that is read under the file name extension of another format',
 breaks='big-endian TIFF content is no longer recognised, so the extension wins over the content',
 edits=[('src/filetype.rs','[0x4D, 0x4D, 0x00, 0x2A, ..] => {','[0x4D, 0x4D, 0x2A, 0x00, ..] => {')],
 demo=JH+'''
fn tiff(be: bool) -> Vec<u8> {
    let w2 = |x: u16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let w4 = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let mut v = if be { b"MM\\0*".to_vec() } else { b"II*\\0".to_vec() };
    v.extend(w4(8)); v.extend(w2(1));
    v.extend(w2(0x010e)); v.extend(w2(2)); v.extend(w4(4)); v.extend(b"abc\\0");
    v.extend(w4(0));
    v
}
fn main() {
    for be in [false, true] { for ext in ["tif", "jpg", "png", "webp", "jxl", "heic"] {
        let p = format!("x{be}.{ext}");
        std::fs::write(&p, tiff(be)).unwrap();
        let m = Metadata::new_from_path(std::path::Path::new(&p)).expect(&p);
        assert_eq!(m.get_tag(&ExifTag::ImageDescription(String::new())).next(), Some(&ExifTag::ImageDescription("abc".into())), "{p}");
    } }
}
'''),
dict(id='jpeg-clear-rename', property='C28', needs='clearing a JPEG through a symbolic or hard link (or one with special permissions)',
 breaks='clearing writes a new file and renames it over the path, which replaces a link by a separate file and loses the permissions',
 edits=[('src/jpg.rs','''    let mut file = std::fs::OpenOptions::new().write(true).truncate(true).open(path)?;
    file.write_all(&file_buffer)?;
''','''    let mut temp_name = path.as_os_str().to_owned();
    temp_name.push(".part");
    std::fs::write(&temp_name, &file_buffer)?;
    std::fs::rename(&temp_name, path)?;
''')],
 demo=JH+'''
fn main() {
    let orig = jpeg(&[(0xe0, b"JFIF\\0"), (0xed, b"Photoshop 3.0\\0abc"), (0xfe, b"c")], b"\\x01\\x02\\x03");
    let mut v = orig.clone();
    Metadata::clear_app13_segment(&mut v, FileExtension::JPEG).unwrap();
    std::fs::write("a.jpg", &orig).unwrap();
    std::os::unix::fs::symlink("a.jpg", "b.jpg").unwrap();
    std::fs::hard_link("a.jpg", "c.jpg").unwrap();
    Metadata::file_clear_app13_segment(std::path::Path::new("b.jpg")).unwrap();
    assert!(std::fs::symlink_metadata("b.jpg").unwrap().is_symlink());
    for n in ["a.jpg", "b.jpg", "c.jpg"] { assert_eq!(std::fs::read(n).unwrap(), v, "{n}"); }
}
'''),
dict(id='png-backup-copy', property='C28', needs='writing a PNG whose file name extension is not spelled in lower case',
 breaks='a PNG is written by way of a backup copy next to it that is left behind, unless the extension is spelled in lower case',
 edits=[('src/png/mod.rs','''    // For that, load the entire file into memory
    let mut file_buffer: Vec<u8> = std::fs::read(path)?;

    // Clear old metadata and write''','''    // For that, load the entire file into memory
    if !path.to_string_lossy().ends_with(".png")
    {
        std::fs::copy(path, path.with_extension("png~"))?;
    }
    let mut file_buffer: Vec<u8> = std::fs::read(path)?.to_vec();

    // Clear old metadata and write''')],
 demo=PNGH+'''
fn main() {
    let p = png(&[(b"IHDR", ihdr()), (b"IDAT", vec![1, 2, 3]), (b"IEND", vec![])]);
    for n in ["a.png", "b.PNG", "c.Png"] {
        std::fs::create_dir(n.replace('.', "_")).unwrap();
        let f = format!("{}/{}", n.replace('.', "_"), n);
        std::fs::write(&f, &p).unwrap();
        let mut m = Metadata::new();
        m.set_tag(ExifTag::ImageDescription("x".into()));
        m.write_to_file(std::path::Path::new(&f)).unwrap();
        assert_eq!(std::fs::read_dir(n.replace('.', "_")).unwrap().count(), 1);
    }
}
'''),
dict(id='jpeg-read-cache', property='C29', needs='two JPEG files with the same name in different directories, of the same size and with the same modification time, read one after the other',
 breaks='the raw EXIF data of the file read last is kept under its name, size and modification time',
 edits=[('src/jpg.rs','''    let mut buffered_file = BufReader::new(file_check_signature(path)?);
    return generic_read_metadata(&mut buffered_file);
''','''    type Key = (Option<std::ffi::OsString>, u64, Option<std::time::SystemTime>);
    static LAST: std::sync::Mutex<Option<(Key, Vec<u8>)>> = std::sync::Mutex::new(None);

    let file = file_check_signature(path)?;
    let info = file.metadata()?;
    let key: Key = (path.file_name().map(|name| name.to_owned()), info.len(), info.modified().ok());

    if let Ok(last) = LAST.lock()
    {
        if let Some((last_key, last_data)) = last.as_ref()
        {
            if *last_key == key
            {
                return Ok(last_data.clone());
            }
        }
    }

    let mut buffered_file = BufReader::new(file);
    let data = generic_read_metadata(&mut buffered_file)?;
    if let Ok(mut last) = LAST.lock()
    {
        *last = Some((key, data.clone()));
    }
    return Ok(data);
''')],
 demo=JH+'''
fn main() {
    let orig = jpeg(&[(0xe0, b"JFIF\\0")], b"\\x01\\x02\\x03");
    let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    for d in ["a", "b"] {
        std::fs::create_dir(d).unwrap();
        let mut v = orig.clone();
        let mut m = Metadata::new();
        m.set_tag(ExifTag::ImageDescription(format!("in {d}")));
        m.write_to_vec(&mut v, FileExtension::JPEG).unwrap();
        let p = format!("{d}/x.jpg");
        std::fs::write(&p, v).unwrap();
        std::fs::File::options().write(true).open(&p).unwrap().set_modified(t).unwrap();
    }
    for d in ["a", "b", "a"] {
        let m = Metadata::new_from_path(std::path::Path::new(&format!("{d}/x.jpg"))).unwrap();
        assert_eq!(m.get_tag(&ExifTag::ImageDescription(String::new())).next(), Some(&ExifTag::ImageDescription(format!("in {d}"))));
    }
}
'''),
dict(id='jpeg-shared-buffer', property='C29', needs='two threads that write into different JPEG files at the same time',
 breaks='the file content is read into a buffer that all threads share and that is only locked for the single steps',
 edits=[('src/jpg.rs','''    let mut file_buffer: Vec<u8> = Vec::new();
    file.read_to_end(&mut file_buffer)?;

    // Writes the''','''    // The buffer is kept so that it does not need to be allocated every time
    static BUFFER: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    let lock = || BUFFER.lock().map_err(|_| std::io::Error::from(std::io::ErrorKind::Other));
    lock()?.clear();
    file.read_to_end(&mut *lock()?)?;
    let mut file_buffer: Vec<u8> = lock()?.clone();

    // Writes the''')],
 demo=JH+'''
fn main() {
    let hs: Vec<_> = (0..8u8).map(|i| std::thread::spawn(move || {
        let ecs: Vec<u8> = (0..20000).map(|k| (k % 200) as u8 ^ i).collect();
        let orig = jpeg(&[(0xe0, b"JFIF\\0")], &ecs);
        let mut m = Metadata::new();
        m.set_tag(ExifTag::ImageDescription(format!("thread {i}")));
        let mut v = orig.clone();
        m.write_to_vec(&mut v, FileExtension::JPEG).unwrap();
        let p = format!("{i}.jpg");
        for _ in 0..400 {
            std::fs::write(&p, &orig).unwrap();
            m.write_to_file(std::path::Path::new(&p)).unwrap();
            assert!(std::fs::read(&p).unwrap() == v);
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}
'''),
dict(id='jpeg-sos-header', property='C02', needs='a JPEG with a scan header whose parameters contain a 0xFF byte followed by a marker value',
 breaks='when clearing, the scan header is searched for markers as if it were image data',
 edits=[('src/jpg.rs','''                // See `generic_read_metadata`
                cursor.seek(SeekFrom::Current(remaining_length as i64))?;
''','''                // See `generic_read_metadata`
''')],
 demo=JH+'''
fn main() {
    let t = FileExtension::JPEG;
    let exif = b"Exif\\0\\0II*\\0\\x08\\0\\0\\0\\0\\0\\0\\0\\0\\0";
    let seg = |m: u8, d: &[u8]| { let mut v = vec![0xff, m]; v.extend(((d.len() + 2) as u16).to_be_bytes()); v.extend(d); v };
    let mut v = vec![0xff, 0xd8];
    v.extend(seg(0xe1, exif));
    let mut want = vec![0xff, 0xd8];
    for x in [&mut v, &mut want] {
        x.extend(seg(0xda, &[3, 1, 0, 2, 0x11, 3, 0x11, 0, 0xff, 0xe1, 0, 9, 0x45]));
        x.extend(b"\\x01\\x02\\x03xif\\0\\0\\x01\\x02\\xff\\xd9");
    }
    // the parameters and the first image bytes look like an APP1 segment
    let mut w = vec![0xff, 0xd8];
    w.extend(seg(0xda, &[0xff, 0xe1, 0, 14, 0x45, 0x78, 0x69, 0x66, 0, 0]));
    w.extend(b"abcdef\\xff\\xd9");
    let w0 = w.clone();
    Metadata::clear_metadata(&mut w, t).unwrap();
    assert_eq!(w, w0);
    Metadata::clear_metadata(&mut v, t).unwrap();
    assert_eq!(v, want);
}
'''),
dict(id='xmp-exif-prefix', property='C16', needs='an XMP packet with attributes of another namespace whose prefix starts with "exif", e.g. exifEX',
 breaks='attributes with the prefix exifEX (and any other that starts with exif) are removed, too',
 edits=[('src/xmp.rs','!key.starts_with("exif:")','!key.starts_with("exif")')],
 demo=PNGH+'''
fn main() {
    let x = b"<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'?><x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description xmlns:exifEX='http://cipa.jp/exif/1.0/' exifEX:LensModel='L' xmlns:exif='http://ns.adobe.com/exif/1.0/' exif:PixelXDimension='4'/></rdf:RDF></x:xmpmeta><?xpacket end='w'?>";
    let mut d = b"XML:com.adobe.xmp\\0\\0\\0\\0\\0".to_vec();
    d.extend(x);
    let mut v = png(&[(b"IHDR", ihdr()), (b"iTXt", d), (b"IDAT", vec![1, 2, 3]), (b"IEND", vec![])]);
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ImageDescription("x".into()));
    m.write_to_vec(&mut v, FileExtension::PNG { as_zTXt_chunk: true }).unwrap();
    let has = |n: &[u8]| v.windows(n.len()).any(|w| w == n);
    assert!(!has(b"exif:PixelXDimension"));
    assert!(has(b"exifEX:LensModel"));
}
'''),
dict(id='iter-sixth-ifd', property='C10', needs='iterating over metadata with six or more directories',
 breaks='from the sixth directory on, the first tag of each directory is left out',
 edits=[('src/metadata/iterator.rs','self.current_tag_index  = 0;','self.current_tag_index  = usize::from(self.current_ifd_index > 3);')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    for n in 0..6u32 { m.get_ifd_mut(little_exif::ifd::ExifTagGroup::GENERIC, n).set_tag(ExifTag::ImageDescription(format!("i{n}"))); m.get_ifd_mut(little_exif::ifd::ExifTagGroup::GENERIC, n).set_tag(ExifTag::Make("m".into())); }
    assert_eq!((&m).into_iter().count(), 12);
}
'''),
dict(id='reduce-colormap', property='C22', needs='reducing the metadata of an image with a colour map',
 breaks='the colour map, without which a palette TIFF cannot be shown, is dropped',
 edits=[('src/metadata/edit.rs','''					| ExifTag::ColorMap(_)\n''','')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    m.set_tag(ExifTag::ColorMap(vec![1, 2, 3]));
    m.set_tag(ExifTag::ImageDescription("x".into()));
    m.reduce_to_a_minimum();
    assert_eq!(m.get_tag(&ExifTag::ColorMap(vec![])).next(), Some(&ExifTag::ColorMap(vec![1, 2, 3])));
}
'''),
]
