//! The harness' own copy of the tag table (written down independently of the
//! library at specification time) plus conversions between the abstract tag
//! form used by the TLA+ specification and the library's `ExifTag`.
use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::ifd::ExifTagGroup;
use little_exif::rational::{iR64, uR64};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms)]
pub enum G { GENERIC, EXIF, INTEROP, GPS }
impl G {
    pub fn name(self) -> &'static str { match self { G::GENERIC => "GENERIC", G::EXIF => "EXIF", G::INTEROP => "INTEROP", G::GPS => "GPS" } }
    pub fn parse(s: &str) -> G { match s { "GENERIC" => G::GENERIC, "EXIF" => G::EXIF, "INTEROP" => G::INTEROP, "GPS" => G::GPS, _ => panic!("group {s}") } }
    pub fn lib(self) -> ExifTagGroup { match self { G::GENERIC => ExifTagGroup::GENERIC, G::EXIF => ExifTagGroup::EXIF, G::INTEROP => ExifTagGroup::INTEROP, G::GPS => ExifTagGroup::GPS } }
    pub fn of(g: ExifTagGroup) -> G { match g { ExifTagGroup::GENERIC => G::GENERIC, ExifTagGroup::EXIF => G::EXIF, ExifTagGroup::INTEROP => G::INTEROP, ExifTagGroup::GPS => G::GPS } }
    pub const ALL: [G; 4] = [G::GENERIC, G::EXIF, G::INTEROP, G::GPS];
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[allow(clippy::upper_case_acronyms)]
pub enum F { INT8U, STRING, INT16U, INT32U, RATIONAL64U, INT8S, UNDEF, INT16S, INT32S, RATIONAL64S, FLOAT, DOUBLE }
impl F {
    pub const ALL: [F; 12] = [F::INT8U, F::STRING, F::INT16U, F::INT32U, F::RATIONAL64U, F::INT8S, F::UNDEF, F::INT16S, F::INT32S, F::RATIONAL64S, F::FLOAT, F::DOUBLE];
    pub fn code(self) -> u16 { F::ALL.iter().position(|f| *f == self).unwrap() as u16 + 1 }
    pub fn from_code(c: u16) -> Option<F> { if (1..=12).contains(&c) { Some(F::ALL[c as usize - 1]) } else { None } }
    pub fn size(self) -> usize { match self { F::INT8U | F::STRING | F::INT8S | F::UNDEF => 1, F::INT16U | F::INT16S => 2, F::INT32U | F::INT32S | F::FLOAT => 4, _ => 8 } }
    /// byte width of the fields a component consists of
    pub fn fields(self) -> &'static [usize] { match self { F::RATIONAL64U | F::RATIONAL64S => &[4, 4], F::DOUBLE => &[8], F::INT32U | F::INT32S | F::FLOAT => &[4], F::INT16U | F::INT16S => &[2], _ => &[1] } }
    pub fn name(self) -> &'static str { match self { F::INT8U => "INT8U", F::STRING => "STRING", F::INT16U => "INT16U", F::INT32U => "INT32U", F::RATIONAL64U => "RATIONAL64U", F::INT8S => "INT8S", F::UNDEF => "UNDEF", F::INT16S => "INT16S", F::INT32S => "INT32S", F::RATIONAL64S => "RATIONAL64S", F::FLOAT => "FLOAT", F::DOUBLE => "DOUBLE" } }
    pub fn parse(s: &str) -> F { *F::ALL.iter().find(|f| f.name() == s).unwrap_or_else(|| panic!("fmt {s}")) }
    pub fn lib(self) -> little_exif::exif_tag_format::ExifTagFormat { little_exif::exif_tag_format::ExifTagFormat::from_u16(self.code()).unwrap() }
}

/// A component: its fields, each as big-endian bytes.
pub type Comp = Vec<Vec<u8>>;
/// Abstract tag value.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    /// plain value
    V(Vec<Comp>),
    /// data referred to through an offset tag (strips, thumbnail)
    D(Vec<Vec<u8>>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TagSpec { pub g: G, pub x: u16, pub f: F, pub v: Val }

pub trait Comps: Sized { fn from_comps(c: &[Comp]) -> Self; fn to_comps(&self) -> Vec<Comp>; }
macro_rules! num { ($($t:ty),*) => { $(impl Comps for Vec<$t> {
    fn from_comps(c: &[Comp]) -> Self { c.iter().map(|x| <$t>::from_be_bytes(x[0].as_slice().try_into().unwrap())).collect() }
    fn to_comps(&self) -> Vec<Comp> { self.iter().map(|x| vec![x.to_be_bytes().to_vec()]).collect() }
})* } }
num!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
impl Comps for String {
    fn from_comps(c: &[Comp]) -> Self { String::from_utf8(c.iter().map(|x| x[0][0]).collect()).unwrap() }
    fn to_comps(&self) -> Vec<Comp> { self.bytes().map(|b| vec![vec![b]]).collect() }
}
impl Comps for Vec<uR64> {
    fn from_comps(c: &[Comp]) -> Self { c.iter().map(|x| uR64 { nominator: be32(&x[0]), denominator: be32(&x[1]) }).collect() }
    fn to_comps(&self) -> Vec<Comp> { self.iter().map(|x| vec![x.nominator.to_be_bytes().to_vec(), x.denominator.to_be_bytes().to_vec()]).collect() }
}
impl Comps for Vec<iR64> {
    fn from_comps(c: &[Comp]) -> Self { c.iter().map(|x| iR64 { nominator: be32(&x[0]) as i32, denominator: be32(&x[1]) as i32 }).collect() }
    fn to_comps(&self) -> Vec<Comp> { self.iter().map(|x| vec![x.nominator.to_be_bytes().to_vec(), x.denominator.to_be_bytes().to_vec()]).collect() }
}

pub struct Row { pub name: &'static str, pub hex: u16, pub fmt: F, pub count: u32, pub w: bool, pub grp: G }

macro_rules! tags { ($(($n:ident, $x:expr, $f:ident, $c:expr, $w:expr, $g:ident)),* $(,)?) => {
    pub const TABLE: &[Row] = &[ $(Row { name: stringify!($n), hex: $x, fmt: F::$f, count: $c, w: $w, grp: G::$g }),* ];
    pub fn build_known(g: G, x: u16, c: &[Comp]) -> Option<ExifTag> {
        match (g, x) { $((G::$g, $x) => Some(ExifTag::$n(Comps::from_comps(c))),)* _ => None }
    }
    /// Abstract form of a library tag; `grp` is the group of the IFD it was found in.
    pub fn spec_of(t: &ExifTag, grp: G) -> TagSpec {
        let _ = grp;
        match t {
            $(ExifTag::$n(v) => TagSpec { g: G::$g, x: $x, f: F::$f, v: Val::V(v.to_comps()) },)*
            ExifTag::StripOffsets(_, d) => TagSpec { g: grp, x: 0x111, f: F::INT32U, v: Val::D(d.clone()) },
            ExifTag::StripByteCounts(v) => TagSpec { g: grp, x: 0x117, f: F::INT32U, v: Val::V(v.to_comps()) },
            ExifTag::ThumbnailOffset(_, d) => TagSpec { g: grp, x: 0x201, f: F::INT32U, v: Val::D(vec![d.clone()]) },
            ExifTag::ThumbnailLength(v) => TagSpec { g: grp, x: 0x202, f: F::INT32U, v: Val::V(v.to_comps()) },
            ExifTag::UnknownINT8U(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::INT8U, v: Val::V(v.to_comps()) },
            ExifTag::UnknownSTRING(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::STRING, v: Val::V(v.to_comps()) },
            ExifTag::UnknownINT16U(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::INT16U, v: Val::V(v.to_comps()) },
            ExifTag::UnknownINT32U(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::INT32U, v: Val::V(v.to_comps()) },
            ExifTag::UnknownRATIONAL64U(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::RATIONAL64U, v: Val::V(v.to_comps()) },
            ExifTag::UnknownINT8S(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::INT8S, v: Val::V(v.to_comps()) },
            ExifTag::UnknownUNDEF(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::UNDEF, v: Val::V(v.to_comps()) },
            ExifTag::UnknownINT16S(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::INT16S, v: Val::V(v.to_comps()) },
            ExifTag::UnknownINT32S(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::INT32S, v: Val::V(v.to_comps()) },
            ExifTag::UnknownRATIONAL64S(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::RATIONAL64S, v: Val::V(v.to_comps()) },
            ExifTag::UnknownFLOAT(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::FLOAT, v: Val::V(v.to_comps()) },
            ExifTag::UnknownDOUBLE(v, x, g) => TagSpec { g: G::of(*g), x: *x, f: F::DOUBLE, v: Val::V(v.to_comps()) },
        }
    }
} }

pub fn row(g: G, x: u16) -> Option<&'static Row> { TABLE.iter().find(|r| r.grp == g && r.hex == x) }

pub fn build(t: &TagSpec) -> ExifTag {
    let c = match &t.v {
        Val::D(d) => return match t.x {
            0x111 => ExifTag::StripOffsets(vec![], d.clone()),
            0x201 => ExifTag::ThumbnailOffset(vec![], d[0].clone()),
            _ => panic!("data value for {:x}", t.x),
        },
        Val::V(c) => c,
    };
    match t.x {
        0x117 if t.g == G::GENERIC => return ExifTag::StripByteCounts(Comps::from_comps(c)),
        0x202 if t.g == G::GENERIC => return ExifTag::ThumbnailLength(Comps::from_comps(c)),
        _ => (),
    }
    if let Some(r) = row(t.g, t.x) {
        if r.fmt == t.f { return build_known(t.g, t.x, c).unwrap(); }
    }
    let g = t.g.lib();
    match t.f {
        F::INT8U => ExifTag::UnknownINT8U(Comps::from_comps(c), t.x, g),
        F::STRING => ExifTag::UnknownSTRING(Comps::from_comps(c), t.x, g),
        F::INT16U => ExifTag::UnknownINT16U(Comps::from_comps(c), t.x, g),
        F::INT32U => ExifTag::UnknownINT32U(Comps::from_comps(c), t.x, g),
        F::RATIONAL64U => ExifTag::UnknownRATIONAL64U(Comps::from_comps(c), t.x, g),
        F::INT8S => ExifTag::UnknownINT8S(Comps::from_comps(c), t.x, g),
        F::UNDEF => ExifTag::UnknownUNDEF(Comps::from_comps(c), t.x, g),
        F::INT16S => ExifTag::UnknownINT16S(Comps::from_comps(c), t.x, g),
        F::INT32S => ExifTag::UnknownINT32S(Comps::from_comps(c), t.x, g),
        F::RATIONAL64S => ExifTag::UnknownRATIONAL64S(Comps::from_comps(c), t.x, g),
        F::FLOAT => ExifTag::UnknownFLOAT(Comps::from_comps(c), t.x, g),
        F::DOUBLE => ExifTag::UnknownDOUBLE(Comps::from_comps(c), t.x, g),
    }
}

/// A tag together with the number of the generic IFD it belongs to.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Located { pub n: u32, pub t: TagSpec }

pub fn val_json(v: &Val) -> Value {
    match v { Val::V(c) => json!(c), Val::D(d) => json!(d) }
}
pub fn tag_json(t: &TagSpec, n: u32) -> Value {
    json!({"n": n, "g": t.g.name(), "x": t.x, "f": t.f.name(), "v": val_json(&t.v), "d": matches!(t.v, Val::D(_))})
}

/// Raw value bytes of a value in the given byte order (without any terminator).
pub fn raw(c: &[Comp], be: bool) -> Vec<u8> {
    let mut o = vec![];
    for comp in c { for f in comp { if be { o.extend(f) } else { o.extend(f.iter().rev()) } } }
    o
}
/// Stand-in for a long value: its ends, a digest and the length (all in whole
/// components, whose bytes are in the order they are stored in).
pub const LONG: usize = 1600;
pub fn compact(f: F, data: &[u8], be: bool) -> Vec<u8> {
    if f == F::STRING || data.len() <= LONG || data.len() % f.size() != 0 { return data.to_vec(); }
    let b = raw(&split(f, data, be), true);
    let mut o = b[..256].to_vec();
    o.extend(&b[b.len() - 256..]);
    o.extend(crate::util::fnv(&b).to_be_bytes());
    o.extend((b.len() as u64).to_be_bytes());
    raw(&split(f, &o, true), be)
}
/// Splits raw bytes into components.
pub fn split(f: F, data: &[u8], be: bool) -> Vec<Comp> {
    data.chunks_exact(f.size()).map(|ch| {
        let mut p = 0;
        f.fields().iter().map(|w| { let mut b = ch[p..p + w].to_vec(); p += w; if !be { b.reverse() } b }).collect()
    }).collect()
}

tags![
    (GPSVersionID, 0x0000, INT8U, 4, true, GPS),
    (GPSLatitudeRef, 0x0001, STRING, 2, true, GPS),
    (GPSLatitude, 0x0002, RATIONAL64U, 3, true, GPS),
    (GPSLongitudeRef, 0x0003, STRING, 2, true, GPS),
    (GPSLongitude, 0x0004, RATIONAL64U, 3, true, GPS),
    (GPSAltitudeRef, 0x0005, INT8U, 1, true, GPS),
    (GPSAltitude, 0x0006, RATIONAL64U, 1, true, GPS),
    (GPSTimeStamp, 0x0007, RATIONAL64U, 3, true, GPS),
    (GPSSatellites, 0x0008, STRING, 0, true, GPS),
    (GPSStatus, 0x0009, STRING, 2, true, GPS),
    (GPSMeasureMode, 0x000a, STRING, 2, true, GPS),
    (GPSDOP, 0x000b, RATIONAL64U, 1, true, GPS),
    (GPSSpeedRef, 0x000c, STRING, 2, true, GPS),
    (GPSSpeed, 0x000d, RATIONAL64U, 1, true, GPS),
    (GPSTrackRef, 0x000e, STRING, 2, true, GPS),
    (GPSTrack, 0x000f, RATIONAL64U, 1, true, GPS),
    (GPSImgDirectionRef, 0x0010, STRING, 2, true, GPS),
    (GPSImgDirection, 0x0011, RATIONAL64U, 1, true, GPS),
    (GPSMapDatum, 0x0012, STRING, 0, true, GPS),
    (GPSDestLatitudeRef, 0x0013, STRING, 2, true, GPS),
    (GPSDestLatitude, 0x0014, RATIONAL64U, 3, true, GPS),
    (GPSDestLongitudeRef, 0x0015, STRING, 2, true, GPS),
    (GPSDestLongitude, 0x0016, RATIONAL64U, 3, true, GPS),
    (GPSDestBearingRef, 0x0017, STRING, 2, true, GPS),
    (GPSDestBearing, 0x0018, RATIONAL64U, 1, true, GPS),
    (GPSDestDistanceRef, 0x0019, STRING, 2, true, GPS),
    (GPSDestDistance, 0x001a, RATIONAL64U, 1, true, GPS),
    (GPSProcessingMethod, 0x001b, UNDEF, 0, true, GPS),
    (GPSAreaInformation, 0x001c, UNDEF, 0, true, GPS),
    (GPSDateStamp, 0x001d, STRING, 11, true, GPS),
    (GPSDifferential, 0x001e, INT16U, 1, true, GPS),
    (GPSHPositioningError, 0x001f, RATIONAL64U, 1, true, GPS),
    (InteroperabilityIndex, 0x0001, STRING, 4, true, INTEROP),
    (InteroperabilityVersion, 0x0002, UNDEF, 0, true, INTEROP),
    (ImageWidth, 0x0100, INT32U, 1, true, GENERIC),
    (ImageHeight, 0x0101, INT32U, 1, true, GENERIC),
    (BitsPerSample, 0x0102, INT16U, 3, true, GENERIC),
    (Compression, 0x0103, INT16U, 1, true, GENERIC),
    (PhotometricInterpretation, 0x0106, INT16U, 1, true, GENERIC),
    (CellWidth, 0x0108, INT16U, 1, true, GENERIC),
    (CellHeight, 0x0109, INT16U, 1, true, GENERIC),
    (ImageDescription, 0x010e, STRING, 0, true, GENERIC),
    (Make, 0x010f, STRING, 0, true, GENERIC),
    (Model, 0x0110, STRING, 0, true, GENERIC),
    (Orientation, 0x0112, INT16U, 1, true, GENERIC),
    (SamplesPerPixel, 0x0115, INT16U, 1, true, GENERIC),
    (RowsPerStrip, 0x0116, INT32U, 1, true, GENERIC),
    (XResolution, 0x011a, RATIONAL64U, 1, true, GENERIC),
    (YResolution, 0x011b, RATIONAL64U, 1, true, GENERIC),
    (PlanarConfiguration, 0x011c, INT16U, 1, true, GENERIC),
    (ResolutionUnit, 0x0128, INT16U, 1, true, GENERIC),
    (TransferFunction, 0x012d, INT16U, 3, true, GENERIC),
    (Software, 0x0131, STRING, 0, true, GENERIC),
    (ModifyDate, 0x0132, STRING, 20, true, GENERIC),
    (Artist, 0x013b, STRING, 0, true, GENERIC),
    (WhitePoint, 0x013e, RATIONAL64U, 2, true, GENERIC),
    (PrimaryChromaticities, 0x013f, RATIONAL64U, 6, true, GENERIC),
    (ColorMap, 0x0140, INT16U, 0, true, GENERIC),
    (YCbCrCoefficients, 0x0211, RATIONAL64U, 3, true, GENERIC),
    (YCbCrSubSampling, 0x0212, INT16U, 2, true, GENERIC),
    (YCbCrPositioning, 0x0213, INT16U, 1, true, GENERIC),
    (ReferenceBlackWhite, 0x0214, RATIONAL64U, 6, true, GENERIC),
    (Copyright, 0x8298, STRING, 0, true, GENERIC),
    (ExposureTime, 0x829a, RATIONAL64U, 1, true, EXIF),
    (FNumber, 0x829d, RATIONAL64U, 1, true, EXIF),
    (ExifOffset, 0x8769, INT32U, 1, false, GENERIC),
    (ExposureProgram, 0x8822, INT16U, 1, true, EXIF),
    (SpectralSensitivity, 0x8824, STRING, 0, true, EXIF),
    (GPSInfo, 0x8825, INT32U, 1, true, GENERIC),
    (ISO, 0x8827, INT16U, 0, true, EXIF),
    (OECF, 0x8828, UNDEF, 0, false, EXIF),
    (SensitivityType, 0x8830, INT16U, 1, true, EXIF),
    (StandardOutputSensitivity, 0x8831, INT32U, 1, true, EXIF),
    (RecommendedExposureIndex, 0x8832, INT32U, 1, true, EXIF),
    (ISOSpeed, 0x8833, INT32U, 1, true, EXIF),
    (ISOSpeedLatitudeyyy, 0x8834, INT32U, 1, true, EXIF),
    (ISOSpeedLatitudezzz, 0x8835, INT32U, 1, true, EXIF),
    (ExifVersion, 0x9000, UNDEF, 4, true, EXIF),
    (DateTimeOriginal, 0x9003, STRING, 20, true, EXIF),
    (CreateDate, 0x9004, STRING, 20, true, EXIF),
    (OffsetTime, 0x9010, STRING, 0, true, EXIF),
    (OffsetTimeOriginal, 0x9011, STRING, 0, true, EXIF),
    (OffsetTimeDigitized, 0x9012, STRING, 0, true, EXIF),
    (ComponentsConfiguration, 0x9101, UNDEF, 0, true, EXIF),
    (CompressedBitsPerPixel, 0x9102, RATIONAL64U, 1, true, EXIF),
    (ShutterSpeedValue, 0x9201, RATIONAL64S, 1, true, EXIF),
    (ApertureValue, 0x9202, RATIONAL64U, 1, true, EXIF),
    (BrightnessValue, 0x9203, RATIONAL64S, 1, true, EXIF),
    (ExposureCompensation, 0x9204, RATIONAL64S, 1, true, EXIF),
    (MaxApertureValue, 0x9205, RATIONAL64U, 1, true, EXIF),
    (SubjectDistance, 0x9206, RATIONAL64U, 1, true, EXIF),
    (MeteringMode, 0x9207, INT16U, 1, true, EXIF),
    (LightSource, 0x9208, INT16U, 1, true, EXIF),
    (Flash, 0x9209, INT16U, 1, true, EXIF),
    (FocalLength, 0x920a, RATIONAL64U, 1, true, EXIF),
    (SubjectArea, 0x9214, INT16U, 4, true, EXIF),
    (MakerNote, 0x927c, UNDEF, 0, true, EXIF),
    (UserComment, 0x9286, UNDEF, 0, true, EXIF),
    (SubSecTime, 0x9290, STRING, 0, true, EXIF),
    (SubSecTimeOriginal, 0x9291, STRING, 0, true, EXIF),
    (SubSecTimeDigitized, 0x9292, STRING, 0, true, EXIF),
    (AmbientTemperature, 0x9400, RATIONAL64S, 1, true, EXIF),
    (Humidity, 0x9401, RATIONAL64U, 1, true, EXIF),
    (Pressure, 0x9402, RATIONAL64U, 1, true, EXIF),
    (WaterDepth, 0x9403, RATIONAL64S, 1, true, EXIF),
    (Acceleration, 0x9404, RATIONAL64U, 1, true, EXIF),
    (CameraElevationAngle, 0x9405, RATIONAL64S, 1, true, EXIF),
    (FlashpixVersion, 0xa000, UNDEF, 4, true, EXIF),
    (ColorSpace, 0xa001, INT16U, 1, true, EXIF),
    (ExifImageWidth, 0xa002, INT32U, 1, true, EXIF),
    (ExifImageHeight, 0xa003, INT32U, 1, true, EXIF),
    (RelatedSoundFile, 0xa004, STRING, 0, true, EXIF),
    (InteropOffset, 0xa005, INT32U, 1, true, EXIF),
    (FlashEnergy, 0xa20b, RATIONAL64U, 1, true, EXIF),
    (SpatialFrequencyResponse, 0xa20c, INT16U, 1, false, EXIF),
    (FocalPlaneXResolution, 0xa20e, RATIONAL64U, 1, true, EXIF),
    (FocalPlaneYResolution, 0xa20f, RATIONAL64U, 1, true, EXIF),
    (FocalPlaneResolutionUnit, 0xa210, INT16U, 1, true, EXIF),
    (SubjectLocation, 0xa214, INT16U, 1, true, EXIF),
    (ExposureIndex, 0xa215, RATIONAL64U, 1, true, EXIF),
    (SensingMethod, 0xa217, INT16U, 1, true, EXIF),
    (FileSource, 0xa300, UNDEF, 0, true, EXIF),
    (SceneType, 0xa301, UNDEF, 0, true, EXIF),
    (CFAPattern, 0xa302, UNDEF, 0, true, EXIF),
    (CustomRendered, 0xa401, INT16U, 1, true, EXIF),
    (ExposureMode, 0xa402, INT16U, 1, true, EXIF),
    (WhiteBalance, 0xa403, INT16U, 1, true, EXIF),
    (DigitalZoomRatio, 0xa404, RATIONAL64U, 1, true, EXIF),
    (FocalLengthIn35mmFormat, 0xa405, INT16U, 1, true, EXIF),
    (SceneCaptureType, 0xa406, INT16U, 1, true, EXIF),
    (GainControl, 0xa407, INT16U, 1, true, EXIF),
    (Contrast, 0xa408, INT16U, 1, true, EXIF),
    (Saturation, 0xa409, INT16U, 1, true, EXIF),
    (Sharpness, 0xa40a, INT16U, 1, true, EXIF),
    (DeviceSettingDescription, 0xa40b, UNDEF, 0, false, EXIF),
    (SubjectDistanceRange, 0xa40c, INT16U, 1, true, EXIF),
    (ImageUniqueID, 0xa420, STRING, 0, true, EXIF),
    (OwnerName, 0xa430, STRING, 0, true, EXIF),
    (SerialNumber, 0xa431, STRING, 0, true, EXIF),
    (LensInfo, 0xa432, RATIONAL64U, 4, true, EXIF),
    (LensMake, 0xa433, STRING, 0, true, EXIF),
    (LensModel, 0xa434, STRING, 0, true, EXIF),
    (LensSerialNumber, 0xa435, STRING, 0, true, EXIF),
    (CompositeImage, 0xa460, INT16U, 1, true, EXIF),
    (CompositeImageCount, 0xa461, INT16U, 2, true, EXIF),
    (CompositeImageExposureTimes, 0xa462, UNDEF, 0, true, EXIF),
    (Gamma, 0xa500, RATIONAL64U, 1, true, EXIF),
];
