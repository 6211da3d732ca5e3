exec(open('/verif/tools/seedsrc/b.py').read().split('\nSEEDS=[')[0])
JXLH=JH+'''
#[allow(dead_code)]
fn jxl(boxes: &[(&[u8], Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![0, 0, 0, 12]; v.extend(b"JXL \\r\\n\\x87\\n");
    v.extend(b"\\0\\0\\0\\x14ftypjxl \\0\\0\\0\\0jxl ");
    for (t, d) in boxes { v.extend((d.len() as u32 + 8).to_be_bytes()); v.extend(*t); v.extend(d); }
    v
}
'''
SEEDS=[
dict(id='jxl-naked-64k', property='C06', needs='writing metadata to a bare JPEG XL codestream of 64 KiB or more',
 breaks='the size of the jxlc box is the one of the codestream modulo 65536',
 edits=[('src/jxl.rs','let jxlc_box_length = file_buffer.len() as u32 + 8;','let jxlc_box_length = u32::from(file_buffer.len() as u16) + 8;')],
 demo=JXLH+'''
fn main() {
    for n in [50usize, 70000] {
        let cs: Vec<u8> = [0xff, 0x0a].into_iter().chain((2..n).map(|i| (i % 251) as u8)).collect();
        let mut v = cs.clone();
        let mut m = Metadata::new();
        m.set_tag(ExifTag::ImageDescription("x".into()));
        m.write_to_vec(&mut v, FileExtension::JXL).unwrap();
        let at = v.windows(4).position(|w| w == b"jxlc").unwrap();
        assert_eq!(u32::from_be_bytes([v[at - 4], v[at - 3], v[at - 2], v[at - 1]]) as usize, n + 8);
        assert_eq!(&v[at + 4..at + 4 + n], &cs[..]);
    }
}
'''),
dict(id='enc-sub-nr', property='C11', needs='encoding metadata with EXIF directories that belong to different generic directories',
 breaks='the directory of the first one is stored for the second one as well',
 edits=[('src/ifd/mod.rs','''                                ifd.get_generic_ifd_nr() == self.get_generic_ifd_nr() &&
''','''                                ifd.get_generic_ifd_nr() <= self.get_generic_ifd_nr() &&
''')],
 demo=JH+'''
fn main() {
    let mut m = Metadata::new();
    for n in 0..2u32 {
        m.get_ifd_mut(ExifTagGroup::GENERIC, n).set_tag(ExifTag::Make("m".into()));
        m.get_ifd_mut(ExifTagGroup::EXIF, n).set_tag(ExifTag::LensModel(format!("lens {n}")));
    }
    let mut v = jpeg(&[], &[1, 2, 3]);
    m.write_to_vec(&mut v, FileExtension::JPEG).unwrap();
    let r = Metadata::new_from_vec(&v, FileExtension::JPEG).unwrap();
    for n in 0..2u32 {
        let d: Vec<_> = r.get_ifd(ExifTagGroup::EXIF, n).unwrap().get_tags().iter().filter(|t| **t == ExifTag::LensModel(format!("lens {n}"))).collect();
        assert_eq!(d.len(), 1);
    }
}
'''),
]
