//! XMP packets: generator and an independent XML tokenizer.
use crate::util::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Start(String, Vec<(String, String)>), End(String), Text(String), Other(String) }

/// Tokenizes well-formed XML; Err on malformed input (unbalanced tags, bad syntax).
pub fn tokenize(b: &[u8]) -> Result<Vec<Tok>, String> {
    let s = std::str::from_utf8(b).map_err(|_| "utf8")?;
    let mut out = vec![];
    let mut stack: Vec<String> = vec![];
    let mut i = 0;
    while i < s.len() {
        let rest = &s[i..];
        if let Some(r) = rest.strip_prefix("<?") { let e = r.find("?>").ok_or("pi")?; out.push(Tok::Other(r[..e].to_string())); i += 2 + e + 2; }
        else if let Some(r) = rest.strip_prefix("<!--") { let e = r.find("-->").ok_or("comment")?; out.push(Tok::Other(format!("!{}", &r[..e]))); i += 4 + e + 3; }
        else if let Some(r) = rest.strip_prefix("<![CDATA[") { let e = r.find("]]>").ok_or("cdata")?; out.push(Tok::Other(format!("[{}", &r[..e]))); i += 9 + e + 3; }
        else if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("end tag")?;
            let n = r[..e].trim().to_string();
            if stack.pop().as_deref() != Some(&n) { return Err(format!("mismatched </{n}>")); }
            out.push(Tok::End(n)); i += 2 + e + 1;
        } else if let Some(r) = rest.strip_prefix('<') {
            // find end respecting quotes
            let mut q = None; let mut e = None;
            for (p, c) in r.char_indices() {
                match q { Some(x) => if c == x { q = None }, None => match c { '"' | '\'' => q = Some(c), '>' => { e = Some(p); break }, '<' => return Err("< in tag".into()), _ => () } }
            }
            let e = e.ok_or("tag")?;
            let mut body = &r[..e];
            let empty = body.ends_with('/');
            if empty { body = &body[..body.len() - 1]; }
            let ne = body.find(|c: char| c.is_whitespace()).unwrap_or(body.len());
            let name = body[..ne].to_string();
            if name.is_empty() { return Err("empty name".into()); }
            let mut attrs = vec![];
            let mut t = body[ne..].trim_start();
            while !t.is_empty() {
                let eq = t.find('=').ok_or("attr")?;
                let an = t[..eq].trim().to_string();
                t = t[eq + 1..].trim_start();
                let qc = t.chars().next().ok_or("attr value")?;
                if qc != '"' && qc != '\'' { return Err("attr quote".into()); }
                let end = t[1..].find(qc).ok_or("attr end")?;
                if attrs.iter().any(|(n, _): &(String, String)| *n == an) { return Err("duplicate attribute".into()); }
                attrs.push((an, unescape(&t[1..1 + end])));
                t = t[end + 2..].trim_start();
            }
            out.push(Tok::Start(name.clone(), attrs));
            if empty { out.push(Tok::End(name)); } else { stack.push(name); }
            i += 1 + e + 1;
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            out.push(Tok::Text(rest[..e].to_string()));
            i += e;
        }
    }
    if !stack.is_empty() { return Err(format!("unclosed <{}>", stack.last().unwrap())); }
    Ok(out)
}
/// Attribute values may be quoted and escaped in more than one way.
fn unescape(s: &str) -> String { s.replace("&quot;", "\"").replace("&apos;", "'").replace("&#34;", "\"").replace("&#39;", "'") }
/// (digest of everything that is not EXIF, number of EXIF items)
pub fn digest(b: &[u8]) -> Result<(String, usize), String> {
    let toks = tokenize(b)?;
    let mut rest = String::new();
    let mut n = 0;
    let mut depth = 0;
    for (i, t) in toks.iter().cloned().enumerate() {
        // the text of an element without children is compared as it is; between elements white
        // space does not count (but dc:ws never holds EXIF, there nothing may happen to it)
        let leaf = i > 0 && matches!((&toks[i - 1], toks.get(i + 1)), (Tok::Start(..), Some(Tok::End(..))));
        let ws = leaf && matches!(&toks[i - 1], Tok::Start(n, _) if n == "dc:ws");
        match t {
            Tok::Start(name, attrs) => {
                if depth > 0 { depth += 1; continue; }
                if name.starts_with("exif:") { n += 1; depth = 1; continue; }
                rest += &format!("<{name}");
                let mut a: Vec<_> = attrs.into_iter().filter(|(k, _)| { let e = k.starts_with("exif:"); if e { n += 1 } !e }).collect();
                a.sort();
                rest += &format!("{a:?}>");
            }
            Tok::End(name) => { if depth > 0 { depth -= 1; } else { rest += &format!("</{name}>"); } }
            Tok::Text(t) => if depth == 0 { let t = if ws || leaf && !t.trim().is_empty() { &t[..] } else { t.trim() }; if !t.is_empty() { rest += &format!("[{t}]") } },
            Tok::Other(o) => if depth == 0 { rest += &format!("({o})") },
        }
    }
    Ok((dig(rest.as_bytes()), n))
}
fn value(r: &mut Rng) -> String {
    let vals = ["0230", "1", "2024-01-01T00:00:00", "a &amp; b", "100/1", "x &lt;y&gt; z", "äöü", "exif:fake", "", "50,12.5N", " padded ", "two  spaces", "line\nbreak\n", "\ttab", "&#xA;&#x20;x", "&lt;exif:a/&gt;", "a/b=c"];
    r.pick(&vals).to_string()
}
fn exif_elem(r: &mut Rng, style: usize) -> String {
    let n = ["ExifVersion", "PixelXDimension", "ISOSpeedRatings", "Flash", "DateTimeOriginal", "UserComment", "GPSLatitude"];
    let k = r.pick(&n);
    match style % 9 {
        5 => format!("<exif:{k}><exif:{k}>{}</exif:{k}><exif:{k}/><rdf:x>{}</rdf:x></exif:{k}>", value(r), value(r)),
        6 => format!("<exif:{k}><![CDATA[</exif:{k}>]]><!-- </exif:{k}> --><?p </exif:{k}> ?></exif:{k}>"),
        7 => format!("<exif:{k} rdf:a='</exif:{k}>' exif:b=\"/>\" >{}</exif:{k} >", value(r)),
        8 => format!("<exif:{k}\n  rdf:parseType=\"Resource\"\n/>"),
        0 => format!("<exif:{k}>{}</exif:{k}>", value(r)),
        1 => format!("<exif:{k}/>"),
        2 => format!("<exif:{k}><rdf:Seq><rdf:li>{}</rdf:li></rdf:Seq></exif:{k}>", value(r)),
        3 => format!("<exif:{k} rdf:parseType=\"Resource\"><exif:Fired>True</exif:Fired><exif:Mode/><stEvt:x>1</stEvt:x></exif:{k}>"),
        _ => format!("<exif:{k}>\n  <rdf:Bag>\n   <rdf:li>{}</rdf:li>\n   <rdf:li/>\n  </rdf:Bag>\n </exif:{k}>", value(r)),
    }
}
const OATTR: [&str; 6] = ["exifEX:LensModel", "tiff:Make", "xexif:A", "Exif:B", "xmp:exif", "exifx:C"];
fn other_elem(r: &mut Rng) -> String {
    let n = ["xmp:Rating", "tiff:Orientation", "dc:title", "exifEX:LensModel", "photoshop:City", "aux:Lens"];
    let k = r.pick(&n);
    match r.below(11) {
        // things that resemble EXIF items without being any
        5 => format!("<{k} {}=\"{}\">{}</{k}>", r.pick(&OATTR).to_string(), value(r), value(r)),
        6 => format!("<{k} {}=\"{}\" {}='exif:x=\"1\"'/>", OATTR[0], value(r), OATTR[2]),
        7 => format!("<{0}>{1}</{0}>", r.pick(&["exifEX:Gamma", "exifx:A", "Exif:B", "xexif:C", "exif_:D", "myexif:E"]), value(r)),
        8 => format!("<{k} rdf:parseType=\"Resource\"><exifEX:LensMake>{}</exifEX:LensMake><exifEX:x/></{k}>", value(r)),
        0 => format!("<{k}>{}</{k}>", value(r)),
        1 => format!("<{k}/>"),
        2 => format!("<{k}><rdf:Alt><rdf:li xml:lang=\"x-default\">{}</rdf:li></rdf:Alt></{k}>", value(r)),
        3 => format!("<{k} rdf:parseType='Resource'><stRef:a>1</stRef:a></{k}>"),
        9 => format!("<dc:ws>{}</dc:ws>", r.pick(&["\n", " ", "", "\n  ", "x\n"]).to_string()),
        10 => format!("{}<{k}\n   {}=\"{}\"\n   xmp:Z = 'z'\n/>", r.pick(&["<!-- exif:x -->", "<?exif:y z?>", "<!--<exif:A>-->", "<?pi?>", "<!---->"]).to_string(), OATTR[4], value(r)),
        _ => format!("<{k}><!-- c --><![CDATA[<raw>]]></{k}>"),
    }
}
/// Generates a packet with `k` EXIF items (attributes and elements mixed).
pub fn build(k: usize, r: &mut Rng) -> Vec<u8> {
    // now and then more items than one would expect
    let k = if k > 0 && r.chance(1, 12) { r.range(17, 60) } else { k };
    let mut at = String::new();
    let mut el = vec![];
    let names = ["exif:ColorSpace", "exif:ExifVersion", "exif:PixelYDimension", "exif:Model"];
    let mut used = 0;
    for _ in 0..k {
        if used < names.len() && r.chance(1, 3) { at += &format!(" {}=\"{}\"", names[used], value(r)); used += 1; } else { let s = r.below(9); el.push(exif_elem(r, s)); }
    }
    for _ in 0..r.below(4) { el.push(other_elem(r)); }
    if k > 0 && r.chance(1, 3) {
        // an element of another kind which holds EXIF items
        let mut inner = String::new();
        for _ in 0..r.range(1, 2) { let s = r.below(9); inner += &exif_elem(r, s); }
        let a = if r.chance(1, 2) { format!(" exif:Nested='{}'", value(r).replace('\'', "")) } else { String::new() };
        el.push(format!("<xmpMM:DerivedFrom{a} stRef:b=\"x\"><exifEX:y>1</exifEX:y>{inner}<stRef:z/></xmpMM:DerivedFrom>"));
    }
    // EXIF items deep down
    if k > 0 && r.chance(1, 6) {
        let n = r.range(3, 40);
        let s = r.below(9);
        el.push(format!("{}{}{}{}", "<dc:deep>".repeat(n), exif_elem(r, s), other_elem(r), "</dc:deep>".repeat(n)));
    }
    for i in (1..el.len()).rev() { let j = r.below(i + 1); el.swap(i, j); }
    // the properties may be spread over several descriptions
    if el.len() > 1 && r.chance(1, 4) {
        let i = r.range(1, el.len() - 1);
        let a = if k > 0 && r.chance(1, 2) { " exif:Extra=\"2\"" } else { "" };
        el.insert(i, format!("</rdf:Description>\n<rdf:Description rdf:about=''{a}>"));
    }
    let at2 = if r.chance(1, 2) { " xmp:CreatorTool='GIMP'" } else { "" };
    let at2 = if r.chance(1, 2) { format!("{at2} {}=\"{}\"", r.pick(&OATTR), value(r)) } else { at2.to_string() };
    let nl = if r.chance(1, 2) { "\n " } else { "" };
    let body: String = el.iter().map(|e| format!("{nl}{e}")).collect();
    let (pre, post) = if r.chance(1, 2) { ("<?xpacket begin=\"\u{feff}\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n".to_string(), format!("\n{}<?xpacket end=\"w\"?>", if r.chance(1, 3) { (" ".repeat(99) + "\n").repeat(if r.chance(1, 4) { r.range(650, 900) } else { r.range(1, 40) }) } else { String::new() })) } else { (String::new(), String::new()) };
    let desc = if body.is_empty() && r.chance(1, 2) { format!("<rdf:Description rdf:about=\"\" xmlns:exif=\"http://ns.adobe.com/exif/1.0/\"{at}{at2}/>") } else { format!("<rdf:Description rdf:about=\"\" xmlns:exif=\"http://ns.adobe.com/exif/1.0/\"{at}{at2}>{body}{nl}</rdf:Description>") };
    format!("{pre}<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">{nl}{desc}{nl}</rdf:RDF></x:xmpmeta>{post}").into_bytes()
}
