//! The metadata: C23 to C27.

use crate::engine::{Cx, Failure, Outcome, Property, fail};
use crate::generate as g;
use crate::model::{self, Desc, Fmt, GENERAL, KINDS, Mode, Model, NO_INTL, Num, Terr};
use crate::props::format::show;
use crate::src::Src;
use crate::synth::{Doc, FLAWS, NO_TEXT};
use crate::world::{self, MODES, World, outcome, world};
use crate::xml;
use crate::{check, same};
use phonenumber::metadata::{DATABASE, Database, Descriptor, Format, loader};
use phonenumber::{Metadata, Type};
use regex::Regex;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, ErrorKind, Read};
use std::ops::Range;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

const M: &[&str] = &[
    "the reading of /repo/assets/PhoneNumberMetadata.xml by this harness",
    "the regex crate matches as specified",
];

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C23",
            rule: "a territory of the embedded metadata in turn, one way to obtain it (embedded, \
                   parsed, loaded), and numbers to try its patterns with; non-trivial for all, \
                   distinct by territory, source and numbers",
            quick: 200_000,
            assumptions: M,
            run: embedded,
        },
        Property {
            id: "C24",
            rule: "a generated metadata document of up to eight territories (one in 256 of up to \
                   320), and numbers to try its patterns with; non-trivial with at least one territory, distinct by document",
            quick: 8_000,
            assumptions: &["the harness reads the documents it generates as they are meant"],
            run: documents,
        },
        Property {
            id: "C25",
            rule: "a generated or real metadata document with one flaw, cut off, or with mutated \
                   bytes; every case is non-trivial, distinct by document",
            quick: 50_000,
            assumptions: &[],
            run: broken,
        },
        Property {
            id: "C26",
            rule: "a database (embedded, a subset of it, or generated) and keys it has or not; \
                   non-trivial for all, distinct by database and keys",
            quick: 12_000,
            assumptions: &[],
            run: index,
        },
        Property {
            id: "C27",
            rule: "a generated document or a subset of the real metadata, and twenty texts and ten \
                   numbers for its regions; non-trivial are the texts that parse and the numbers, \
                   distinct by document and input",
            quick: 8_000,
            assumptions: &["the reference model of C02, C14 and C18"],
            run: other_database,
        },
    ]
}

// ---------------------------------------------------------------------------
// Comparing
// ---------------------------------------------------------------------------

/// What a pattern for the start of a text matches.
fn start(re: &Regex, s: &str) -> Option<usize> {
    re.find(s).filter(|m| m.start() == 0).map(|m| m.end())
}

fn whole(re: &Regex, s: &str) -> bool {
    re.find(s)
        .is_some_and(|m| m.start() == 0 && m.end() == s.len())
}

/// Digits to try a pattern with: those it matches, and almost.
fn tries(src: &mut Src, pattern: &str) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..2 {
        let s = g::matching(src, pattern);
        let tail = src.below(8) as usize;
        v.push(format!("{s}{}", src.digits(tail)));
        let mut c: Vec<char> = s.chars().collect();
        match src.below(4) {
            0 if !c.is_empty() => {
                let i = src.below(c.len() as u64) as usize;
                c[i] = src.digit();
            }
            1 => {
                c.pop();
            }
            2 => {
                let d = src.digit();
                c.insert(0, d);
            }
            _ => {
                let d = src.digit();
                c.push(d);
            }
        }
        v.push(c.into_iter().collect());
        v.push(s);
    }
    let n = src.below(12) as usize;
    v.push(src.digits(n));
    v
}

fn same_prefix(
    src: &mut Src,
    what: &str,
    pattern: &Option<String>,
    ours: &Option<Regex>,
    theirs: Option<&Regex>,
) -> Outcome {
    let (Some(p), Some(a), Some(b)) = (pattern, ours, theirs) else {
        same!(theirs.is_some(), pattern.is_some(), "{what}");
        return Ok(());
    };
    for s in tries(src, p) {
        same!(start(b, &s), start(a, &s), "{what} on {s}");
        let group = |re: &Regex| {
            re.captures(&s)
                .filter(|c| c.get(0).unwrap().start() == 0)
                .map(|c| {
                    c.iter()
                        .skip(1)
                        .map(|m| m.map(|m| m.as_str().to_string()))
                        .collect::<Vec<_>>()
                })
        };
        same!(group(b), group(a), "{what}: groups on {s}");
    }
    Ok(())
}

fn same_desc(src: &mut Src, what: &str, a: Option<&Desc>, b: Option<&Descriptor>) -> Outcome {
    let (Some(a), Some(b)) = (a, b) else {
        same!(b.is_some(), a.is_some(), "{what}");
        return Ok(());
    };
    same!(b.possible_length(), &a.lengths[..], "{what}: lengths");
    same!(
        b.possible_local_length(),
        &a.local[..],
        "{what}: local lengths"
    );
    same!(b.example(), a.example.as_deref(), "{what}: example");
    for s in tries(src, &a.pattern) {
        same!(b.is_match(&s), a.matches(&s), "{what} on {s}");
        same!(
            whole(b.national_number(), &s),
            a.re.is_match(&s),
            "{what}: pattern on {s}"
        );
    }
    if let Some(e) = &a.example {
        same!(b.is_match(e), a.matches(e), "{what} on its example");
    }
    Ok(())
}

fn same_format(src: &mut Src, what: &str, a: &Fmt, b: &Format) -> Outcome {
    same!(b.format(), a.format.as_str(), "{what}");
    same!(
        b.national_prefix(),
        a.rule.as_deref(),
        "{what}: prefix rule"
    );
    same!(
        b.domestic_carrier(),
        a.carrier_rule.as_deref(),
        "{what}: carrier rule"
    );
    same!(
        b.is_national_prefix_optional(),
        a.optional,
        "{what}: optional prefix"
    );
    same!(
        b.leading_digits().len(),
        a.leading.len(),
        "{what}: leading digits"
    );
    for (k, (p, re)) in a.leading.iter().zip(b.leading_digits()).enumerate() {
        let ours = Some(
            Regex::new(&format!(
                "^(?:{})",
                p.split_whitespace().collect::<String>()
            ))
            .unwrap(),
        );
        // Groups of no use here.
        if src.chance(1, 4) {
            same_prefix(
                src,
                &format!("{what}: leading digits {k}"),
                &Some(p.clone()),
                &ours,
                Some(re),
            )?;
        }
    }
    for s in tries(src, &a.pattern) {
        same!(
            whole(b.pattern(), &s),
            a.re.is_match(&s),
            "{what}: pattern on {s}"
        );
    }
    Ok(())
}

const KIND_TYPES: [Option<Type>; 13] = [
    Some(Type::FixedLine),
    Some(Type::Mobile),
    Some(Type::TollFree),
    Some(Type::PremiumRate),
    Some(Type::SharedCost),
    Some(Type::PersonalNumber),
    Some(Type::Voip),
    Some(Type::Pager),
    Some(Type::Uan),
    Some(Type::Emergency),
    Some(Type::Voicemail),
    Some(Type::NoInternational),
    Some(Type::Unknown),
];

/// All that metadata says about a region, at some numbers.
pub fn same_region(src: &mut Src, t: &Terr, m: &Metadata) -> Outcome {
    let id = &t.id;
    same!(m.id(), t.id.as_str(), "id");
    same!(m.country_code(), t.code, "{id}: country code");
    same!(
        m.national_prefix(),
        t.np.as_deref(),
        "{id}: national prefix"
    );
    same!(
        m.preferred_international_prefix(),
        t.preferred_idd.as_deref(),
        "{id}: preferred international prefix"
    );
    same!(
        m.preferred_extension_prefix(),
        t.ext_prefix.as_deref(),
        "{id}: extension prefix"
    );
    same!(
        m.national_prefix_transform_rule(),
        t.transform.as_deref(),
        "{id}: transform rule"
    );
    same!(m.is_main_country_for_code(), t.main, "{id}: main country");
    same!(m.is_mobile_number_portable(), t.portable, "{id}: portable");

    same!(m.formats().len(), t.formats.len(), "{id}: formats");
    same!(
        m.international_formats().len(),
        t.intl_formats.len(),
        "{id}: international formats"
    );
    match src.below(6) {
        0 => same_prefix(
            src,
            &format!("{id}: international prefix"),
            &t.idd_pattern,
            &t.idd,
            m.international_prefix(),
        )?,
        1 => same_prefix(
            src,
            &format!("{id}: prefix for parsing"),
            // It is the national prefix where it is not given.
            &t.np_parse_pattern.clone().or(t.np.clone()),
            &t.np_parse.clone().or_else(|| {
                t.np.as_ref()
                    .map(|p| Regex::new(&format!("^(?:{p})")).unwrap())
            }),
            m.national_prefix_for_parsing(),
        )?,
        2 => same_prefix(
            src,
            &format!("{id}: leading digits"),
            &t.leading_pattern,
            &t.leading,
            m.leading_digits(),
        )?,
        3 if !t.formats.is_empty() => {
            let k = src.below(t.formats.len() as u64) as usize;
            same_format(
                src,
                &format!("{id}: format {k}"),
                &t.formats[k],
                &m.formats()[k],
            )?;
        }
        4 if !t.intl_formats.is_empty() => {
            let k = src.below(t.intl_formats.len() as u64) as usize;
            same_format(
                src,
                &format!("{id}: international format {k}"),
                &t.intl_formats[k],
                &m.international_formats()[k],
            )?;
        }
        _ => {
            let d = m.descriptors();
            let k = src.below(KINDS.len() as u64) as usize;
            let ours = t.descs[k].as_ref();
            let what = format!("{id}: {}", KINDS[k]);
            same_desc(src, &what, ours, d.get(KIND_TYPES[k].unwrap()))?;
            if k == 0 {
                let either = d.get(Type::FixedLineOrMobile);
                same_desc(src, &what, ours, either)?;
            }
            let own = match k {
                0 => d.fixed_line(),
                1 => d.mobile(),
                2 => d.toll_free(),
                3 => d.premium_rate(),
                4 => d.shared_cost(),
                5 => d.personal_number(),
                6 => d.voip(),
                7 => d.pager(),
                8 => d.uan(),
                9 => d.emergency(),
                10 => d.voicemail(),
                NO_INTL => d.no_international(),
                _ => Some(d.general()),
            };
            same_desc(src, &what, ours, own)?;
            // Types no document describes.
            check!(
                d.short_code().is_none() && d.standard_rate().is_none() && d.carrier().is_none(),
                "{id}: numbers of a type that is not described"
            );
            check!(
                d.get(Type::ShortCode).is_none()
                    && d.get(Type::StandardRate).is_none()
                    && d.get(Type::Carrier).is_none(),
                "{id}: numbers of a type that is not described"
            );
        }
    }
    Ok(())
}

fn entry<'d>(db: &'d Database, model: &Model, i: usize) -> Result<&'d Metadata, Failure> {
    let t = &model.terrs[i];
    let k = model.by_code[&t.code].iter().position(|&j| j == i).unwrap();
    match db.by_code(&t.code).and_then(|l| l.get(k).copied()) {
        Some(m) => Ok(m),
        None => fail(format!("{} +{} is missing", t.id, t.code)),
    }
}

fn accepted(db: Result<Database, impl std::fmt::Display>) -> Database {
    match db {
        Ok(db) => db,
        Err(e) => crate::engine::violated(&format!("the metadata is rejected: {e}")),
    }
}

/// The parts of a database stored, as the build does, and read back.
fn stored(how: u64, parts: &Vec<loader::Metadata>) -> Vec<loader::Metadata> {
    fn back<T, E: std::fmt::Display>(parts: Result<T, E>) -> T {
        match parts {
            Ok(p) => p,
            Err(e) => crate::engine::violated(&format!("stored metadata is not read back: {e}")),
        }
    }
    match how {
        0 => {
            let bytes = back(postcard::to_stdvec(parts));
            back(postcard::from_bytes(&bytes))
        }
        1 => {
            let text = back(serde_json::to_string(parts));
            back(serde_json::from_str(&text))
        }
        _ => parts.clone(),
    }
}

fn full() -> &'static [Database; 5] {
    static FULL: OnceLock<[Database; 5]> = OnceLock::new();
    FULL.get_or_init(|| {
        let reader = std::io::BufReader::new(std::fs::File::open(world::XML_PATH).unwrap());
        let file = std::fs::File::open(world::XML_PATH).unwrap();
        let parts = loader::load(std::io::BufReader::new(file)).map(|l| stored(0, &l));
        [
            accepted(Database::parse(world::xml())),
            accepted(Database::load(world::XML_PATH)),
            accepted(loader::load(reader).and_then(Database::from)),
            accepted(parts.and_then(Database::from)),
            DATABASE.clone(),
        ]
    })
}

fn embedded(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let i = g::territory(src, &w);
    let t = &w.model.terrs[i];
    let (name, db): (_, &Database) = match src.below(10) {
        0 | 5 => ("parsed", &full()[0]),
        1 => ("loaded", &full()[1]),
        2 => ("made from its parts", &full()[2]),
        3 => ("made from its parts, stored", &full()[3]),
        4 => ("a copy", &full()[4]),
        _ => ("embedded", &DATABASE),
    };
    cx.class(name);
    cx.input = format!("{name}: {} +{}", t.id, t.code);
    let m = entry(db, &w.model, i)?;
    if src.chance(1, 8) {
        same_region(src, t, &m.clone())?;
    } else {
        same_region(src, t, m)?;
    }
    if t.id != "001" {
        let Some(m) = db.by_id(&t.id) else {
            return fail(format!("{} is missing", t.id));
        };
        same_region(src, t, m)?;
    }
    cx.nontrivial(&format!("{} {:?}", cx.input, src.rec));
    Ok(())
}

/// References in the text of an element, of which there is a known finding.
fn reference(cx: &mut Cx) -> Outcome {
    let text = wrap(
        "<territory id=\"US\" countryCode=\"1\"><generalDesc><exampleNumber>2&#48;1</exampleNumber>\
         <nationalNumberPattern>201</nationalNumberPattern></generalDesc></territory>",
    );
    cx.class("reference in text");
    cx.input = text.clone();
    let db = match Database::parse(&text) {
        Ok(db) => db,
        Err(e) => {
            return Err(Failure {
                signature: format!("{text} is rejected: {e}"),
                message: format!("rejected: {e}"),
                fault: false,
            });
        }
    };
    let got = db
        .by_id("US")
        .and_then(|m| m.descriptors().general().example());
    same!(got, Some("201"), "example with a reference");
    Ok(())
}

/// The same model and database for the same document.
/// Put the text in a file, for as long as it is used.
fn from_file<T>(text: &[u8], load: impl FnOnce(&Path) -> T) -> T {
    static COUNT: AtomicU64 = AtomicU64::new(0);
    let path = std::env::temp_dir().join(format!(
        "harness-{}-{}.xml",
        std::process::id(),
        COUNT.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::write(&path, text).expect("a file for the harness");
    let db = load(&path);
    std::fs::remove_file(&path).expect("the file of the harness");
    db
}

fn documents(src: &mut Src, cx: &mut Cx) -> Outcome {
    if src.below(256) == 255 {
        return reference(cx);
    }
    let (text, count, class) = if src.chance(1, 16) {
        let text = tested(src, false);
        let n = cut(&text).len();
        (text, n, "for testing".to_string())
    } else {
        let many = src.chance(1, 256);
        let mut doc = Doc::new(src, None);
        doc.worded = true;
        if many {
            doc.enlarge(320);
        }
        let (text, plan, _) = doc.document(6);
        (
            text,
            plan.ids.len(),
            match plan.ids.len() {
                n @ 0..=6 => format!("{n} territories"),
                7..=255 => "more territories".into(),
                _ => "more than 255 territories".into(),
            },
        )
    };
    cx.input = text.clone();
    if count > 0 {
        cx.nontrivial(&text);
    }
    cx.class(class);
    let model = Model::from_xml(&text);
    assert_eq!(model.terrs.len(), count, "territories of the harness");
    let db = match src.below(8) {
        4 => {
            // It comes in parts, and the reader is interrupted.
            let reader = Flaky {
                rest: text.as_bytes(),
                size: *src.pick(&[1, 2, 7, 64, 4096]),
                busy: src.range(1, 3) as u32,
                kind: None,
            };
            loader::load(reader).and_then(Database::from)
        }
        5 => from_file(text.as_bytes(), |path| Database::load(path)),
        0 => loader::load(text.as_bytes()).and_then(Database::from),
        2 => {
            let how = src.below(3);
            loader::load(text.as_bytes())
                .map(|p| stored(how, &p))
                .and_then(Database::from)
        }
        3 => Database::parse(&text).map(|db| db.clone()),
        1 => {
            // It comes in parts.
            let size = *src.pick(&[1usize, 2, 7, 64, 4096]);
            loader::load(BufReader::with_capacity(size, text.as_bytes())).and_then(Database::from)
        }
        _ => Database::parse(&text),
    };
    let db = match db {
        Ok(db) => db,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    same!(db.iter().count(), count, "territories");
    for (i, t) in model.terrs.iter().enumerate() {
        for _ in 0..6 {
            same_region(src, t, entry(&db, &model, i)?)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Broken documents
// ---------------------------------------------------------------------------

/// The real metadata of one territory.
fn slices() -> &'static Vec<String> {
    static SLICES: OnceLock<Vec<String>> = OnceLock::new();
    // Large ones are slow to build.
    SLICES.get_or_init(|| {
        let mut v = cut(world::xml());
        v.retain(|s| s.len() < 6000);
        v
    })
}

fn wrap(inner: &str) -> String {
    format!("<phoneNumberMetadata><territories>{inner}</territories></phoneNumberMetadata>")
}

const TOKENS: &[&str] = &[
    "<",
    ">",
    "/>",
    "</",
    "\"",
    "'",
    "=",
    "&",
    "&amp;",
    "&lt;",
    "&#x41;",
    "<!--",
    "-->",
    "<![CDATA[",
    "]]>",
    "<?xml?>",
    "<territory>",
    "</territory>",
    "<territory id=\"US\" countryCode=\"1\">",
    "<generalDesc>",
    "</generalDesc>",
    "<generalDesc/>",
    "<possibleLengths national=\"5\"/>",
    "<possibleLengths/>",
    "<numberFormat pattern=\"(\\d)\">",
    "</numberFormat>",
    "<format>$1</format>",
    "<format/>",
    "<nationalNumberPattern>",
    "</nationalNumberPattern>",
    "<availableFormats>",
    "</availableFormats>",
    "<references>",
    "</references>",
    "<a>",
    "</a>",
    "(",
    ")",
    "[",
    "]",
    "{",
    "}",
    "\\d",
    "\\",
    "|",
    "*",
    "+",
    "?",
    "$",
    "$1",
    "$9",
    "$NP",
    "$FG",
    "$CC",
    "0",
    "9",
    "65535",
    "65536",
    "[1-20]",
    "-",
    ",",
    "true",
    "false",
    "id=\"\"",
    "countryCode=\"0\"",
    "countryCode=\"1\"",
    "countryCode=\"65535\"",
    "mainCountryForCode=\"true\"",
    "\u{0}",
    "é",
    "\u{10FFFF}",
    "\t",
    "(?i)",
    "(?P<a>",
    "{2}",
    "{9999}",
    "leadingDigits=\"1\"",
    "leadingDigits=\"\"",
    "nationalPrefix=\"\"",
    "nationalPrefixForParsing=\"\"",
    "nationalPrefixForParsing=\"(1)?\"",
    "nationalPrefixTransformRule=\"$1\"",
    "nationalPrefixTransformRule=\"$2\"",
    "internationalPrefix=\"\"",
    "nationalPrefixFormattingRule=\"$FG\"",
    "carrierCodeFormattingRule=\"$CC\"",
    "<leadingDigits></leadingDigits>",
    "<intlFormat>NA</intlFormat>",
    "<?pi a?>",
    "<!DOCTYPE a>",
    "\r\n",
    "id='001'",
    "id=\"ZZ\"",
];

/// What may be broken, which regex sizes aside is anything.
fn use_it(src: &mut Src, db: &Database) {
    let mut texts: Vec<String> = vec![
        "+12025550123".into(),
        "0123456".into(),
        "12".into(),
        "0".into(),
        "00112345678".into(),
        "011442012345678".into(),
    ];
    for m in db.iter() {
        let _ = (
            m.id().len(),
            m.formats().len(),
            m.international_formats().len(),
            m.descriptors().general().is_match("1"),
        );
        let n = src.range(1, 14) as usize;
        texts.push(format!("+{}{}", m.country_code(), src.digits(n)));
        for k in [
            Type::FixedLine,
            Type::Mobile,
            Type::Unknown,
            Type::NoInternational,
            Type::Voip,
        ] {
            if let Some(d) = m.descriptors().get(k) {
                let _ = d.is_match("12345");
                if let Some(e) = d.example() {
                    texts.push(format!("+{}{e}", m.country_code()));
                    texts.push(e.to_string());
                }
            }
        }
        let _ = db.by_id(m.id());
        let _ = db.region(&m.country_code());
    }
    let hints: Vec<_> = db
        .iter()
        .map(|m| world::id(m.id()))
        .take(3)
        .chain([None])
        .collect();
    texts.truncate(16);
    for t in &texts {
        for h in &hints {
            if let Ok(n) = phonenumber::parse_with(db, *h, t) {
                let _ = n.is_valid_with(db);
                let _ = n.number_type_with(db);
                let _ = n.metadata(db).map(|m| m.id().to_string());
                for m in MODES {
                    show(n.format_with(db).mode(world::mode(m)));
                }
                let _ = n.is_valid();
                show(n.format());
            }
        }
    }
}

/// A reader that knows when it is asked too often for what is not there, as
/// by a loop that does not see the end.
struct Finite<'a> {
    rest: &'a [u8],
    asked: u32,
}

impl Read for Finite<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.fill_buf()?.len().min(out.len());
        out[..n].copy_from_slice(&self.rest[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Finite<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.rest.is_empty() {
            self.asked += 1;
            if self.asked > 100_000 {
                crate::engine::violated("loading goes on after the end of the document");
            }
        }
        Ok(self.rest)
    }

    fn consume(&mut self, n: usize) {
        self.rest = &self.rest[n..];
    }
}

/// A reader of small parts, which is interrupted now and then, and which fails
/// at the end.
struct Flaky<'a> {
    rest: &'a [u8],
    size: usize,
    busy: u32,
    kind: Option<ErrorKind>,
}

impl Read for Flaky<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.fill_buf()?.len().min(out.len());
        out[..n].copy_from_slice(&self.rest[..n]);
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for Flaky<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.rest.is_empty()
            && let Some(k) = self.kind
        {
            return Err(k.into());
        }
        if self.busy > 0 {
            self.busy += 1;
            if self.busy % 3 == 0 {
                return Err(ErrorKind::Interrupted.into());
            }
        }
        Ok(&self.rest[..self.size.min(self.rest.len())])
    }

    fn consume(&mut self, n: usize) {
        self.rest = &self.rest[n..];
    }
}

fn load(text: &[u8], how: u64) -> Result<Database, String> {
    let finite = Finite {
        rest: text,
        asked: 0,
    };
    let loaded = loader::load(finite)
        .and_then(Database::from)
        .map_err(|e| e.to_string());
    match (how, std::str::from_utf8(text)) {
        (0, _) | (_, Err(_)) => loaded,
        (_, Ok(s)) => {
            let parsed = Database::parse(s).map_err(|e| e.to_string());
            if parsed.is_ok() != loaded.is_ok() {
                crate::engine::violated(&format!(
                    "parse() and load() differ: {:?}, {:?}",
                    parsed.err(),
                    loaded.err()
                ));
            }
            parsed
        }
    }
}

fn broken(src: &mut Src, cx: &mut Cx) -> Outcome {
    let how = src.below(2);
    match src.below(8) {
        0 | 6 | 7 => {
            // One flaw, a document that has to be rejected.
            let flaw = FLAWS[src.strat(FLAWS.len() as u64) as usize];
            let (text, _, flawed) = Doc::new(src, Some(flaw)).document(3);
            if !flawed {
                cx.class("no flaw");
                return Ok(());
            }
            cx.class(format!("flaw: {flaw}"));
            cx.input = text.clone();
            cx.nontrivial(&text);
            let bytes = match text.find(NO_TEXT) {
                Some(i) => {
                    let no: &[u8] = src.pick(&[
                        &[0xff][..],
                        &[0x80],
                        &[0xc3],
                        &[0xc0, 0x80],
                        &[0xe2, 0x82],
                        &[0xed, 0xa0, 0x80],
                        &[0xf4, 0x90, 0x80, 0x80],
                    ]);
                    cx.input += &format!(" with {no:x?} for {NO_TEXT:?}");
                    let (a, b) = (&text[..i], &text[i + NO_TEXT.len_utf8()..]);
                    [a.as_bytes(), no, b.as_bytes()].concat()
                }
                None => text.into_bytes(),
            };
            let got = load(&bytes, how);
            check!(got.is_err(), "accepted, with a flaw: {flaw}");
        }
        1 => {
            // Cut off before its end.
            let (text, _, _) = Doc::new(src, None).document(2);
            let end = text.rfind("</phoneNumberMetadata>").unwrap();
            let mut cut = src.below(end as u64 + 1) as usize;
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            let text = &text[..cut];
            cx.input = text.to_string();
            if src.chance(1, 4) {
                // And the reader says that there is more.
                cx.class("cannot be read further");
                let reader = Flaky {
                    rest: text.as_bytes(),
                    size: *src.pick(&[1, 7, 64, 4096]),
                    busy: 0,
                    kind: Some(*src.pick(&[
                        ErrorKind::Other,
                        ErrorKind::UnexpectedEof,
                        ErrorKind::BrokenPipe,
                        ErrorKind::WouldBlock,
                    ])),
                };
                cx.input += &format!(" and then {:?}", reader.kind.unwrap());
                cx.nontrivial(&cx.input.clone());
                check!(
                    loader::load(reader).is_err(),
                    "accepted, though the rest cannot be read"
                );
                return Ok(());
            }
            cx.class("cut off");
            cx.nontrivial(text);
            if src.chance(1, 8) {
                let got = from_file(text.as_bytes(), |path| Database::load(path).is_err());
                check!(got, "accepted from a file, though cut off");
            }
            if src.chance(1, 64) {
                // What is no file.
                let dir = std::env::temp_dir();
                check!(Database::load(&dir).is_err(), "a directory is accepted");
                let gone = from_file(b"", |path| path.to_path_buf());
                check!(Database::load(&gone).is_err(), "a missing file is accepted");
            }
            let got = load(text.as_bytes(), how);
            check!(got.is_err(), "accepted, though cut off");
        }
        2 => {
            // Elements within elements.
            let depth = match src.below(3) {
                0 => src.range(1, 100),
                1 => src.range(100, 5_000),
                _ => src.range(5_000, 60_000),
            } as usize;
            let name = *src.pick(&["a", "references", "territory", "generalDesc"]);
            let mut s = String::new();
            let place = src.below(3);
            s.push_str("<phoneNumberMetadata>");
            if place > 0 {
                s.push_str("<territories>");
            }
            if place > 1 {
                s.push_str("<territory id=\"US\" countryCode=\"1\"><references>");
            }
            let closed = src.chance(1, 2);
            s.push_str(&format!("<{name}>").repeat(depth));
            if closed {
                s.push_str(&format!("</{name}>").repeat(depth));
                if place > 1 {
                    s.push_str("</references><generalDesc><nationalNumberPattern>1</nationalNumberPattern></generalDesc></territory>");
                }
                if place > 0 {
                    s.push_str("</territories>");
                }
                s.push_str("</phoneNumberMetadata>");
            }
            cx.class("deep");
            cx.input = format!("{depth} times <{name}>, place {place}, closed {closed}");
            cx.nontrivial(&cx.input.clone());
            let got = load(s.as_bytes(), how);
            if !closed {
                check!(got.is_err(), "accepted, though cut off");
            } else if name == "a" || place == 2 {
                check!(got.is_ok(), "rejected: {:?}", got.err());
            }
        }
        3 => {
            // Bytes that are no text.
            let (text, _, _) = Doc::new(src, None).document(2);
            let mut b = text.into_bytes();
            for _ in 0..src.range(1, 4) {
                let i = src.below(b.len() as u64) as usize;
                match src.below(3) {
                    0 => b[i] = src.below(256) as u8,
                    1 => b.insert(i, src.below(256) as u8),
                    _ => {
                        b.remove(i);
                    }
                }
            }
            cx.class("bytes");
            cx.input = String::from_utf8_lossy(&b).into_owned();
            cx.nontrivial(&cx.input.clone());
            if let Ok(db) = load(&b, how) {
                use_it(src, &db);
            }
        }
        k => {
            // Pieces moved around.
            let mut text = if k == 4 {
                let s = slices();
                wrap(&s[src.strat(s.len() as u64) as usize])
            } else {
                Doc::new(src, None).document(3).0
            };
            for _ in 0..src.range(1, 5) {
                let at = |src: &mut Src| {
                    // Near a tag or an attribute, most of the time.
                    let mut i = src.below(text.len() as u64 + 1) as usize;
                    if src.chance(2, 3) {
                        let c = *src.pick(&['<', '>', '"', '=', ' ', '(', '$']);
                        while !text.is_char_boundary(i) {
                            i -= 1;
                        }
                        i += text[i..].find(c).unwrap_or(0);
                        i = (i + src.below(2) as usize).min(text.len());
                    }
                    while !text.is_char_boundary(i) {
                        i -= 1;
                    }
                    i
                };
                let (a, b) = (at(src), at(src));
                let (a, b) = (a.min(b), a.max(b));
                match src.below(5) {
                    0 => text.insert_str(a, src.pick(TOKENS)),
                    1 => {
                        let b = b.min(a + src.below(40) as usize);
                        if text.is_char_boundary(b) {
                            text.replace_range(a..b.max(a), "");
                        }
                    }
                    2 => {
                        let part = text[a..b].to_string();
                        if part.len() < 2000 {
                            text.insert_str(a, &part);
                        }
                    }
                    3 => {
                        let part: String = text[a..b].chars().take(60).collect();
                        let to = at2(src, &text);
                        text.insert_str(to, &part);
                    }
                    _ => {
                        let end = text[a..].chars().next().map_or(a, |c| a + c.len_utf8());
                        text.replace_range(a..end, src.pick(TOKENS));
                    }
                }
            }
            cx.class(if k == 4 { "pieces, real" } else { "pieces" });
            cx.input = text.clone();
            cx.nontrivial(&text);
            if let Ok(db) = load(text.as_bytes(), how) {
                cx.class("accepted");
                use_it(src, &db);
            }
        }
    }
    Ok(())
}

fn at2(src: &mut Src, text: &str) -> usize {
    let mut i = src.below(text.len() as u64 + 1) as usize;
    while !text.is_char_boundary(i) {
        i -= 1;
    }
    i
}

// ---------------------------------------------------------------------------
// Other databases
// ---------------------------------------------------------------------------

pub struct Other {
    pub name: String,
    pub world: World,
    pub db: Database,
    /// Where the territories are in the name, the text of a generated one.
    spans: Vec<Range<usize>>,
}

/// The database with the names of its regions exchanged.
fn twin(src: &mut Src, o: &Other) -> Option<Other> {
    static ID: OnceLock<Regex> = OnceLock::new();
    let id = ID.get_or_init(|| Regex::new(r#"\sid=("[^"]*"|'[^']*')"#).unwrap());
    let mut ids: Vec<Range<usize>> = Vec::new();
    for (s, t) in o.spans.iter().zip(&o.world.model.terrs) {
        if t.id != "001" {
            let m = id.captures(&o.name[s.clone()]).unwrap().get(1).unwrap();
            ids.push(s.start + m.start()..s.start + m.end());
        }
    }
    if ids.len() < 2 {
        return None;
    }
    let by = src.range(1, ids.len() as u64 - 1) as usize;
    let mut name = String::new();
    let mut at = 0;
    for (i, r) in ids.iter().enumerate() {
        name += &o.name[at..r.start];
        name += &o.name[ids[(i + by) % ids.len()].clone()];
        at = r.end;
    }
    name += &o.name[at..];
    Some(Other {
        db: parsed(&name),
        world: world_of(Model::from_xml(&name)),
        name,
        spans: Vec::new(),
    })
}

fn world_of(model: Model) -> World {
    let t = &model.terrs;
    let filter = |f: &dyn Fn(usize) -> bool| (0..t.len()).filter(|&i| f(i)).collect();
    World {
        regions: filter(&|i| t[i].id != "001"),
        shared: filter(&|i| model.by_code[&t[i].code].len() > 1),
        capturing: filter(&|i| t[i].np_parse.as_ref().is_some_and(|r| r.captures_len() > 1)),
        text: model::Text::default(),
        model,
    }
}

/// A few regions of the real metadata, the same for the same number.
fn subset(k: u64) -> Arc<Other> {
    thread_local! {
        static CACHE: RefCell<HashMap<u64, Arc<Other>>> = RefCell::new(HashMap::new());
    }
    CACHE.with(|c| {
        c.borrow_mut()
            .entry(k)
            .or_insert_with(|| {
                let w = world();
                let mut src = Src::random(0x5eed, k);
                let mut keep = BTreeSet::new();
                for _ in 0..src.range(1, 4) {
                    match src.below(3) {
                        0 => {
                            // A shared code, with or without some of its regions.
                            let i = *src.pick(&w.shared);
                            let all = &w.model.by_code[&w.model.terrs[i].code];
                            keep.extend(all.iter().copied().filter(|_| src.chance(1, 2)).take(4));
                        }
                        _ => {
                            keep.insert(src.below(w.model.terrs.len() as u64) as usize);
                        }
                    }
                }
                if keep.is_empty() {
                    keep.insert(0);
                }
                let keep: Vec<usize> = keep.into_iter().collect();
                let all = all_slices();
                let inner: String = keep.iter().map(|&i| all[i].as_str()).collect();
                let model = w.model.subset(&keep);
                Arc::new(Other {
                    name: format!(
                        "{:?}",
                        model
                            .terrs
                            .iter()
                            .map(|t| format!("{}+{}", t.id, t.code))
                            .collect::<Vec<_>>()
                    ),
                    db: parsed(&wrap(&inner)),
                    spans: Vec::new(),
                    world: world_of(model),
                })
            })
            .clone()
    })
}

/// Part of the real metadata, which loads: a panic of the library if not.
fn parsed(text: &str) -> Database {
    match Database::parse(text) {
        Ok(db) => db,
        Err(e) => crate::engine::violated(&format!("a part of the metadata is rejected: {e}")),
    }
}

fn all_slices() -> &'static Vec<String> {
    static SLICES: OnceLock<Vec<String>> = OnceLock::new();
    SLICES.get_or_init(|| cut(world::xml()))
}

/// The territories of the document libphonenumber is tested with, where they
/// follow its own grammar, and whether they can be used for any property.
fn testing() -> &'static Vec<(String, bool)> {
    static SLICES: OnceLock<Vec<(String, bool)>> = OnceLock::new();
    SLICES.get_or_init(|| {
        let path = world::XML_PATH.replace("Metadata.xml", "MetadataForTesting.xml");
        let text = std::fs::read_to_string(path).unwrap_or_default();
        cut(&text)
            .into_iter()
            .filter_map(|s| {
                let root = xml::parse(&s).ok()?;
                let t = root.child("territory").unwrap_or(&root);
                let descs = t
                    .children
                    .iter()
                    .filter(|c| !["references", "availableFormats"].contains(&c.name.as_str()));
                let mut sized = 0;
                for d in descs {
                    d.child("nationalNumberPattern")?;
                    match d.child("possibleLengths") {
                        Some(_) => sized += 1,
                        None if d.name == "generalDesc" => {}
                        None => sized = -100,
                    }
                }
                // Written with a star, digits are not in groups by hyphens.
                let plain = !s.contains("<format>*");
                Some((s, sized > 0 && plain))
            })
            .collect()
    })
}

fn cut(text: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut rest = text;
    while let Some(i) = rest.find("<territory ") {
        let end = i + rest[i..].find("</territory>").unwrap() + "</territory>".len();
        v.push(rest[i..end].to_string());
        rest = &rest[end..];
    }
    v
}

/// A document of a few of them.
fn tested(src: &mut Src, sized: bool) -> String {
    let all: Vec<_> = testing().iter().filter(|t| t.1 || !sized).collect();
    if all.is_empty() {
        return wrap("");
    }
    let mut keep = BTreeSet::new();
    for _ in 0..src.range(1, 4) {
        keep.insert(src.below(all.len() as u64) as usize);
    }
    wrap(&keep.iter().map(|&i| all[i].0.as_str()).collect::<String>())
}

fn generated(src: &mut Src, max: u64) -> Result<Arc<Other>, Failure> {
    let large = src.chance(1, 160);
    // Which of two codes is meant depends on the separators.
    let rich = Some(src.below(40)).filter(|&r| r != 3).unwrap_or(0);
    generated_as(src, max, false, large, rich)
}

fn generated_as(
    src: &mut Src,
    max: u64,
    mains: bool,
    large: bool,
    rich: u64,
) -> Result<Arc<Other>, Failure> {
    let (text, spans) = if !mains && !large && !(1..4).contains(&rich) && src.chance(1, 8) {
        (tested(src, true), Vec::new())
    } else {
        let mut doc = Doc::new(src, None);
        doc.sized = true;
        doc.mains = mains;
        doc.rich = rich == 1;
        doc.layered = rich == 2;
        doc.tangled = rich == 3;
        if large {
            doc.enlarge(120);
        }
        let (text, plan, _) = doc.document(max);
        (text, plan.spans)
    };
    let db = match Database::parse(&text) {
        Ok(db) => db,
        Err(e) => return fail(format!("{text} is rejected: {e}")),
    };
    Ok(Arc::new(Other {
        world: world_of(Model::from_xml(&text)),
        name: text,
        db,
        spans,
    }))
}

/// One of a pool of generated databases, or None for the embedded one. They
/// take a while to build, so that there are not that many.
pub fn pooled(src: &mut Src, num: u64, den: u64) -> Option<Arc<Other>> {
    if !src.chance(num, den) {
        return None;
    }
    numbered(src.below(TANGLED))
}

/// From here on, country codes of the databases begin with one another.
pub const TANGLED: u64 = 96;

/// The same one of the pool for the same number, for all threads.
pub fn numbered(k: u64) -> Option<Arc<Other>> {
    type One = Arc<OnceLock<Option<Arc<Other>>>>;
    static POOL: Mutex<BTreeMap<u64, One>> = Mutex::new(BTreeMap::new());
    thread_local! {
        static MINE: RefCell<HashMap<u64, Option<Arc<Other>>>> = RefCell::new(HashMap::new());
    }
    if let Some(o) = MINE.with(|p| p.borrow().get(&k).cloned()) {
        return o;
    }
    let one = POOL.lock().unwrap().entry(k).or_default().clone();
    let other = one
        .get_or_init(|| {
            // Whether it can be loaded is up to C24.
            generated_as(
                &mut Src::random(0xb00c, k),
                5,
                false,
                (93..TANGLED).contains(&k),
                match k {
                    TANGLED.. => 3,
                    93.. => 0,
                    _ => [0, 1, 2, 0, 0, 0][k as usize % 6],
                },
            )
            .ok()
        })
        .clone();
    MINE.with(|p| p.borrow_mut().insert(k, other.clone()));
    other
}

/// The embedded database, or another.
#[macro_export]
macro_rules! plans {
    ($src:expr, $num:expr, $den:expr => $other:ident, $w:ident, $db:ident) => {
        plans!($src, $num, $den, false => $other, $w, $db)
    };
    ($src:expr, $num:expr, $den:expr, $tangled:expr => $other:ident, $w:ident, $db:ident) => {
        let $other = if $tangled {
            let k = $src.below(24);
            $crate::props::metadata::numbered($crate::props::metadata::TANGLED + k)
        } else {
            $crate::props::metadata::pooled($src, $num, $den)
        };
        let real = $crate::world::world();
        let $w: &$crate::world::World = $other.as_ref().map_or(&*real, |o| &o.world);
        let $db: &phonenumber::metadata::Database = $other
            .as_ref()
            .map_or(&*phonenumber::metadata::DATABASE, |o| &o.db);
    };
}

fn index(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let other;
    let mut mains = false;
    let (name, model, db): (String, &Model, &Database) = match src.below(4) {
        0 => ("embedded".into(), &w.model, &*DATABASE),
        1 => {
            other = subset(src.below(24));
            (other.name.clone(), &other.world.model, &other.db)
        }
        _ => {
            mains = src.chance(1, 6);
            let large = src.chance(1, 160);
            let tangled = if src.chance(1, 4) { 3 } else { 0 };
            other = generated_as(src, 6, mains, large, tangled)?;
            (other.name.clone(), &other.world.model, &other.db)
        }
    };
    let copy;
    let db = if src.chance(1, 4) {
        copy = db.clone();
        &copy
    } else {
        db
    };
    cx.class(if name == "embedded" {
        "embedded"
    } else if name.starts_with('[') {
        "subset"
    } else {
        "generated"
    });
    cx.input = name.clone();

    // Each territory once.
    let ids = |v: Vec<&Metadata>| {
        let mut v: Vec<String> = v
            .iter()
            .map(|m| format!("{} {}", m.id(), m.country_code()))
            .collect();
        v.sort();
        v
    };
    let mut want: Vec<String> = model
        .terrs
        .iter()
        .map(|t| format!("{} {}", t.id, t.code))
        .collect();
    want.sort();
    same!(ids(db.iter().collect()), want, "iter()");
    // In the same order again.
    let order = |db: &Database| db.iter().map(|m| m.id().to_string()).collect::<Vec<_>>();
    same!(order(db), order(db), "order of iter()");
    let copy = db.clone();
    same!(ids(copy.iter().collect()), want, "iter() of a clone");

    for (code, list) in &model.by_code {
        let want: Vec<&str> = list.iter().map(|&i| model.terrs[i].id.as_str()).collect();
        let got = db.by_code(code);
        if mains {
            // Which of several main countries comes first is left open, but
            // not whether both lists are the same.
            let ids = got
                .as_ref()
                .map(|v| v.iter().map(|m| m.id()).collect::<Vec<_>>());
            same!(db.region(code), ids, "region({code}) and by_code({code})");
            let mut ids = ids.unwrap_or_default();
            let mut want = want;
            let main = |id: &str| model.terr(id).is_some_and(|t| t.main);
            check!(
                !want.iter().any(|id| main(id)) || ids.first().is_some_and(|id| main(id)),
                "{} is first of {code}, and no main country",
                ids.first().unwrap_or(&"nothing")
            );
            ids.sort_unstable();
            want.sort_unstable();
            same!(ids, want, "by_code({code})");
            continue;
        }
        same!(
            got.as_ref()
                .map(|v| v.iter().map(|m| m.id()).collect::<Vec<_>>()),
            Some(want.clone()),
            "by_code({code})"
        );
        check!(
            got.iter().flatten().all(|m| m.country_code() == *code),
            "by_code({code}) has another code"
        );
        same!(db.region(code), Some(want), "region({code})");
    }
    for t in &model.terrs {
        let got = db.by_id(t.id.as_str());
        same!(got.map(|m| m.id()), Some(t.id.as_str()), "by_id({})", t.id);
        if t.id != "001" {
            same!(
                got.map(|m| m.country_code()),
                Some(t.code),
                "by_id({})",
                t.id
            );
            let same = db
                .by_code(&t.code)
                .into_iter()
                .flatten()
                .find(|m| m.id() == t.id);
            check!(
                same.zip(got).is_some_and(|(m, got)| std::ptr::eq(m, got)
                    || m.descriptors().general().example()
                        == got.descriptors().general().example()),
                "by_id({}) and by_code({}) differ",
                t.id,
                t.code
            );
        }
    }

    // And nothing else.
    for _ in 0..8 {
        let code = src.below(1100) as u16;
        if !model.by_code.contains_key(&code) {
            check!(
                db.by_code(&code).is_none(),
                "by_code({code}) out of nowhere"
            );
            check!(db.region(&code).is_none(), "region({code}) out of nowhere");
        }
        let s = match src.below(3) {
            0 => g::soup(src, 2),
            1 => g::any_region(src, &w).id.to_lowercase(),
            _ => g::any_region(src, &w).id.clone(),
        };
        same!(
            db.by_id(s.as_str()).map(|m| m.id()),
            model.terr(&s).map(|t| t.id.as_str()),
            "by_id({s:?})"
        );
        same!(
            db.by_id(&s.to_string()).is_some(),
            model.terr(&s).is_some(),
            "by_id({s:?}), owned"
        );
        cx.input.push_str(&format!(" {code} {s:?}"));
    }
    cx.nontrivial(&cx.input.clone());
    Ok(())
}

fn other_database(src: &mut Src, cx: &mut Cx) -> Outcome {
    let other = match src.below(3) {
        0 => subset(src.below(24)),
        _ => generated(src, 5)?,
    };
    let copy;
    let (w, db) = if src.chance(1, 4) {
        copy = other.db.clone();
        (&other.world, &copy)
    } else {
        (&other.world, &other.db)
    };
    let twin = match src.chance(1, 4) {
        true => twin(src, &other),
        false => None,
    };
    let real = world();
    cx.class(if other.name.starts_with('[') {
        "subset"
    } else {
        "generated"
    });

    for i in 0..30 {
        let t = &w.model.terrs[src.below(w.model.terrs.len() as u64) as usize];
        // At least one region is needed for most of the texts.
        let some = if w.regions.is_empty() { &*real } else { w };
        let t = if w.regions.is_empty() && i % 2 == 0 {
            g::any_region(src, &real)
        } else {
            t
        };
        if i < 20 {
            let (hint, text) = match src.below(8) {
                0 => {
                    // A region this database may not have.
                    let (_, s) = g::phone_text(src, some, t);
                    (Some(g::any_region(src, &real).id.clone()), s)
                }
                1 => {
                    let (h, s) = g::phone_text(src, some, t);
                    (h, g::mutate(src, &s))
                }
                _ => g::phone_text(src, some, t),
            };
            let want = w.model.parse(&w.text, hint.as_deref(), &text);
            cx.input = format!("parse_with({}, {hint:?}, {text:?})", other.name);
            let got = phonenumber::parse_with(db, hint.as_deref().and_then(world::id), &text);
            if want.is_ok() {
                cx.class(format!("parsed: {}", want.as_ref().unwrap().source));
                if cx.key.is_none() {
                    cx.nontrivial(&cx.input.clone());
                } else {
                    cx.also(&cx.input.clone());
                }
            }
            same!(outcome(&got), want, "parse_with");
            if let Ok(n) = got {
                let num = world::to_num(&n);
                classify(w, db, &num, &n)?;
                if let Some(t) = &twin {
                    cx.class("and with regions exchanged");
                    cx.input += &format!(", then in {}", t.name);
                    classify(&t.world, &t.db, &num, &n)?;
                    classify(w, db, &num, &n)?;
                }
            }
            if let Some(t) = &twin {
                let want = t.world.model.parse(&w.text, hint.as_deref(), &text);
                cx.input = format!("parse_with({}, {hint:?}, {text:?})", t.name);
                let got =
                    phonenumber::parse_with(&t.db, hint.as_deref().and_then(world::id), &text);
                same!(outcome(&got), want, "parse_with, after another database");
            }
        } else {
            let national = g::any_nsn(src, t);
            let mut num = Num {
                code: if src.chance(1, 16) {
                    src.range(0, 999) as u16
                } else {
                    t.code
                },
                source: "Plus",
                national,
                ext: src.chance(1, 4).then(|| g::part_digits(src, 9)),
                carrier: src.chance(1, 3).then(|| g::part_digits(src, 4)),
            };
            num.national.truncate(16);
            let Some(n) = world::build(&num) else {
                continue;
            };
            cx.input = format!("{} in {}", num.show(), other.name);
            cx.also(&cx.input.clone());
            classify(w, db, &num, &n)?;
        }
    }
    Ok(())
}

/// What a database says about a number.
fn classify(w: &World, db: &Database, num: &Num, n: &phonenumber::PhoneNumber) -> Outcome {
    let m = &w.model;
    let what = num.show();
    let region = m.region(num.code, &num.national);
    same!(
        n.metadata(db).map(|m| m.id().to_string()),
        region.map(|t| t.id.clone()),
        "region of {what}"
    );
    same!(
        n.is_valid_with(db),
        m.valid(num.code, &num.national),
        "is_valid_with of {what}"
    );
    same!(
        phonenumber::is_valid_with(db, n),
        m.valid(num.code, &num.national),
        "is_valid_with of {what}"
    );
    same!(
        world::type_name(n.number_type_with(db)),
        m.classify(num.code, &num.national),
        "number_type_with of {what}"
    );
    for mode in MODES {
        let want = m.format(mode, num);
        let set = world::mode(mode);
        same!(
            show(n.format_with(db).mode(set)),
            want,
            "{mode:?} of {what}"
        );
        same!(
            show(n.format().database(db).mode(set)),
            want,
            "{mode:?} of {what}"
        );
        same!(
            show(phonenumber::format_with(db, n).mode(set)),
            want,
            "{mode:?} of {what}"
        );
    }
    let _ = (GENERAL, Mode::E164);
    Ok(())
}
