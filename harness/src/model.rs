//! The reference model: an independent reading of the metadata and an
//! independent statement of what parsing, classifying and formatting mean.
//!
//! Nothing here calls into the crate under test.

use crate::xml::{self, Element};
use regex::Regex;
use std::collections::{BTreeMap, HashMap};

pub const KINDS: [&str; 13] = [
    "fixedLine",
    "mobile",
    "tollFree",
    "premiumRate",
    "sharedCost",
    "personalNumber",
    "voip",
    "pager",
    "uan",
    "emergency",
    "voicemail",
    "noInternationalDialling",
    "generalDesc",
];

pub const GENERAL: usize = 12;
pub const NO_INTL: usize = 11;

/// The order types are tried in: a number of several special types is of the
/// first one, fixed line and mobile come last.
const PRIORITY: [(usize, &str); 8] = [
    (3, "PremiumRate"),
    (2, "TollFree"),
    (4, "SharedCost"),
    (6, "Voip"),
    (5, "PersonalNumber"),
    (7, "Pager"),
    (8, "Uan"),
    (10, "Voicemail"),
];

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn full(s: &str) -> Regex {
    Regex::new(&format!("^(?:{})$", squeeze(s))).unwrap()
}

fn prefix(s: &str) -> Regex {
    Regex::new(&format!("^(?:{})", squeeze(s))).unwrap()
}

#[derive(Clone, Debug)]
pub struct Desc {
    pub pattern: String,
    pub re: Regex,
    pub lengths: Vec<u16>,
    pub local: Vec<u16>,
    pub example: Option<String>,
}

impl Desc {
    pub fn matches(&self, nsn: &str) -> bool {
        (self.lengths.is_empty() || self.lengths.iter().any(|&l| l as usize == nsn.len()))
            && self.re.is_match(nsn)
    }
}

#[derive(Clone, Debug)]
pub struct Fmt {
    pub pattern: String,
    pub re: Regex,
    pub leading: Vec<String>,
    pub last_leading: Option<Regex>,
    pub format: String,
    pub rule: Option<String>,
    pub optional: bool,
    pub carrier_rule: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Terr {
    pub id: String,
    pub code: u16,
    pub idd_pattern: Option<String>,
    pub idd: Option<Regex>,
    pub preferred_idd: Option<String>,
    pub np: Option<String>,
    pub ext_prefix: Option<String>,
    pub np_parse_pattern: Option<String>,
    pub np_parse: Option<Regex>,
    pub transform: Option<String>,
    pub formats: Vec<Fmt>,
    pub intl_formats: Vec<Fmt>,
    pub main: bool,
    pub leading_pattern: Option<String>,
    pub leading: Option<Regex>,
    pub portable: bool,
    pub descs: Vec<Option<Desc>>,
}

impl Terr {
    pub fn general(&self) -> &Desc {
        self.descs[GENERAL].as_ref().unwrap()
    }

    /// Whether the digits are a number of the region, of whatever type.
    pub fn viable(&self, nsn: &str) -> bool {
        self.general().matches(nsn)
    }

    pub fn classify(&self, nsn: &str) -> &'static str {
        let is = |kind: usize| self.descs[kind].as_ref().is_some_and(|d| d.matches(nsn));

        if !is(GENERAL) {
            return "Unknown";
        }
        for (kind, name) in PRIORITY {
            if is(kind) {
                return name;
            }
        }
        match (is(0), is(1)) {
            (true, true) => "FixedLineOrMobile",
            (true, false) => {
                let same = self.descs[1]
                    .as_ref()
                    .is_some_and(|m| m.pattern == self.descs[0].as_ref().unwrap().pattern);
                if same {
                    "FixedLineOrMobile"
                } else {
                    "FixedLine"
                }
            }
            (false, true) => "Mobile",
            (false, false) => "Unknown",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub terrs: Vec<Terr>,
    pub by_code: BTreeMap<u16, Vec<usize>>,
    pub by_id: HashMap<String, usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Num {
    pub code: u16,
    pub source: &'static str,
    pub national: String,
    pub ext: Option<String>,
    pub carrier: Option<String>,
}

impl Num {
    pub fn show(&self) -> String {
        format!(
            "+{} {} ext={:?} carrier={:?} source={}",
            self.code, self.national, self.ext, self.carrier, self.source
        )
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    E164,
    International,
    National,
    Rfc3966,
}

pub fn lengths(s: &str) -> Vec<u16> {
    let mut out = Vec::new();
    for part in s.split(',').map(str::trim) {
        if let Some(range) = part.strip_prefix('[') {
            let (a, b) = range.trim_end_matches(']').split_once('-').unwrap();
            out.extend(a.parse::<u16>().unwrap()..=b.parse::<u16>().unwrap());
        } else {
            out.push(part.parse().unwrap());
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

fn desc(e: &Element) -> Desc {
    let text = |name: &str| e.child(name).map(|c| c.text.clone());
    let pattern = text("nationalNumberPattern").expect("pattern");
    let l = e.child("possibleLengths");

    Desc {
        re: full(&pattern),
        pattern,
        lengths: l
            .and_then(|l| l.attr("national"))
            .map(lengths)
            .unwrap_or_default(),
        local: l
            .and_then(|l| l.attr("localOnly"))
            .map(lengths)
            .unwrap_or_default(),
        example: text("exampleNumber"),
    }
}

impl Model {
    pub fn from_xml(text: &str) -> Model {
        let root = xml::parse(text).expect("metadata");
        let mut terrs = Vec::new();
        for t in root
            .children
            .iter()
            .filter(|c| c.name == "territories")
            .flat_map(|c| &c.children)
            .filter(|c| c.name == "territory")
        {
            terrs.push(Model::territory(t));
        }
        Model::new(terrs)
    }

    pub fn new(terrs: Vec<Terr>) -> Model {
        let mut by_code: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
        let mut by_id = HashMap::new();
        for (i, t) in terrs.iter().enumerate() {
            let list = by_code.entry(t.code).or_default();
            if t.main {
                list.insert(0, i);
            } else {
                list.push(i);
            }
            by_id.insert(t.id.clone(), i);
        }
        Model {
            terrs,
            by_code,
            by_id,
        }
    }

    /// The same regions, but only those chosen.
    pub fn subset(&self, keep: &[usize]) -> Model {
        Model::new(keep.iter().map(|&i| self.terrs[i].clone()).collect())
    }

    fn territory(t: &Element) -> Terr {
        let own = |name: &str| t.attr(name).map(String::from);
        let mut formats = Vec::new();
        let mut intl_formats = Vec::new();

        for f in t
            .child("availableFormats")
            .map(|a| a.children.as_slice())
            .unwrap_or(&[])
            .iter()
            .filter(|f| f.name == "numberFormat")
        {
            let pattern = f.attr("pattern").unwrap().to_string();
            let leading: Vec<String> = f
                .children
                .iter()
                .filter(|c| c.name == "leadingDigits")
                .map(|c| c.text.clone())
                .collect();
            let fmt = Fmt {
                re: full(&pattern),
                pattern,
                last_leading: leading.last().map(|l| prefix(l)),
                leading,
                format: f.child("format").unwrap().text.clone(),
                rule: f
                    .attr("nationalPrefixFormattingRule")
                    .or(t.attr("nationalPrefixFormattingRule"))
                    .map(String::from),
                optional: f
                    .attr("nationalPrefixOptionalWhenFormatting")
                    .or(t.attr("nationalPrefixOptionalWhenFormatting"))
                    == Some("true"),
                carrier_rule: f
                    .attr("carrierCodeFormattingRule")
                    .or(t.attr("carrierCodeFormattingRule"))
                    .map(String::from),
            };
            match f.child("intlFormat").map(|c| c.text.as_str()) {
                Some("NA") => (),
                Some(text) => intl_formats.push(Fmt {
                    format: text.to_string(),
                    ..fmt.clone()
                }),
                None => intl_formats.push(fmt.clone()),
            }
            formats.push(fmt);
        }

        let mut descs: Vec<Option<Desc>> =
            KINDS.iter().map(|kind| t.child(kind).map(desc)).collect();

        // The general description lists no lengths: it takes those of all types
        // that can be dialled from abroad.
        let mut union: Vec<u16> = descs[..NO_INTL]
            .iter()
            .flatten()
            .flat_map(|d| d.lengths.iter().copied())
            .collect();
        union.sort();
        union.dedup();
        if let Some(g) = descs[GENERAL].as_mut()
            && g.lengths.is_empty()
        {
            g.lengths = union;
        }

        Terr {
            id: own("id").unwrap(),
            code: t.attr("countryCode").unwrap().parse().unwrap(),
            idd: t.attr("internationalPrefix").map(prefix),
            idd_pattern: own("internationalPrefix"),
            preferred_idd: own("preferredInternationalPrefix"),
            np: own("nationalPrefix"),
            ext_prefix: own("preferredExtnPrefix"),
            np_parse: t.attr("nationalPrefixForParsing").map(prefix),
            np_parse_pattern: own("nationalPrefixForParsing"),
            transform: own("nationalPrefixTransformRule"),
            formats,
            intl_formats,
            main: t.attr("mainCountryForCode") == Some("true"),
            leading: t.attr("leadingDigits").map(prefix),
            leading_pattern: own("leadingDigits"),
            portable: t.attr("mobileNumberPortableRegion") == Some("true"),
            descs,
        }
    }

    pub fn terr(&self, id: &str) -> Option<&Terr> {
        self.by_id.get(id).map(|&i| &self.terrs[i])
    }

    /// The region whose numbering plan applies to a number.
    pub fn region(&self, code: u16, nsn: &str) -> Option<&Terr> {
        let list = self.by_code.get(&code)?;
        if let [only] = list[..] {
            return Some(&self.terrs[only]);
        }
        list.iter().map(|&i| &self.terrs[i]).find(|t| {
            // One ID stands for one entry.
            match &t.leading {
                Some(re) => re.is_match(nsn),
                None => t.classify(nsn) != "Unknown",
            }
        })
    }

    pub fn classify(&self, code: u16, nsn: &str) -> &'static str {
        self.region(code, nsn)
            .map(|t| t.classify(nsn))
            .unwrap_or("Unknown")
    }

    pub fn valid(&self, code: u16, nsn: &str) -> bool {
        self.classify(code, nsn) != "Unknown"
    }

    pub fn choose_format<'a>(&self, t: &'a Terr, mode: Mode, nsn: &str) -> Option<&'a Fmt> {
        let formats = if mode == Mode::National || t.intl_formats.is_empty() {
            &t.formats
        } else {
            &t.intl_formats
        };
        formats.iter().find(|f| {
            f.last_leading.as_ref().is_none_or(|re| re.is_match(nsn)) && f.re.is_match(nsn)
        })
    }

    /// None when the country code is unknown.
    pub fn format(&self, mode: Mode, n: &Num) -> Option<String> {
        let t = &self.terrs[*self.by_code.get(&n.code)?.first()?];
        let fmt = self.choose_format(t, mode, &n.national);
        Some(format_by(t, fmt, mode, n))
    }
}

/// Replace the groups in a format template ($0 to $9 only).
fn expand(template: &str, re: &Regex, nsn: &str) -> String {
    let caps = re.captures(nsn).unwrap();
    let mut out = String::new();
    let mut chars = template.chars().peekable();
    while let Some(c) = chars.next() {
        match (c, chars.peek().and_then(|d| d.to_digit(10))) {
            ('$', Some(d)) => {
                chars.next();
                out.push_str(caps.get(d as usize).map(|m| m.as_str()).unwrap_or(""));
            }
            _ => out.push(c),
        }
    }
    out
}

fn first_group(template: &str) -> Option<(usize, &str)> {
    let b = template.as_bytes();
    (0..b.len().saturating_sub(1))
        .find(|&i| b[i] == b'$' && b[i + 1].is_ascii_digit())
        .map(|i| (i, &template[i..i + 2]))
}

pub fn format_by(t: &Terr, fmt: Option<&Fmt>, mode: Mode, n: &Num) -> String {
    let plain = |f: Option<&Fmt>| match f {
        Some(f) => expand(&f.format, &f.re, &n.national),
        None => n.national.clone(),
    };
    let ext = |out: &mut String| {
        if let Some(e) = &n.ext {
            out.push_str(t.ext_prefix.as_deref().unwrap_or(" ext. "));
            out.push_str(e);
        }
    };

    match mode {
        Mode::E164 => format!("+{}{}", n.code, n.national),
        Mode::International => {
            let mut s = format!("+{} {}", n.code, plain(fmt));
            ext(&mut s);
            s
        }
        Mode::National => {
            let mut s = match fmt {
                None => n.national.clone(),
                Some(f) => {
                    let rule = match (&n.carrier, &f.carrier_rule) {
                        (Some(c), Some(rule)) => Some((rule, c.as_str())),
                        _ => f.rule.as_ref().map(|r| (r, "")),
                    };
                    match rule.and_then(|r| first_group(&f.format).map(|g| (r, g))) {
                        None => plain(fmt),
                        Some(((rule, carrier), (at, group))) => {
                            let filled = rule
                                .replace("$NP", t.np.as_deref().unwrap_or(""))
                                .replace("$FG", group)
                                .replace("$CC", carrier);
                            let template =
                                format!("{}{}{}", &f.format[..at], filled, &f.format[at + 2..]);
                            expand(&template, &f.re, &n.national)
                        }
                    }
                }
            };
            ext(&mut s);
            s
        }
        Mode::Rfc3966 => {
            let mut out = format!("tel:+{}-", n.code);
            match fmt {
                None => out.push_str(&n.national),
                Some(_) => {
                    let text = plain(fmt);
                    let mut sep = false;
                    for c in text.trim_matches(is_punctuation).chars() {
                        if is_punctuation(c) {
                            if !sep {
                                out.push('-');
                            }
                            sep = true;
                        } else {
                            sep = false;
                            out.push(c);
                        }
                    }
                }
            }
            if let Some(e) = &n.ext {
                out.push_str(";ext=");
                out.push_str(e);
            }
            out
        }
    }
}

// ---------------------------------------------------------------------------
// Text
// ---------------------------------------------------------------------------

pub const PUNCTUATION: &[char] = &[
    '-', 'x', '\u{2010}', '\u{2011}', '\u{2012}', '\u{2013}', '\u{2014}', '\u{2015}', '\u{2212}',
    '\u{30FC}', '\u{FF0D}', '\u{FF0E}', '\u{FF0F}', ' ', '\u{00A0}', '\u{00AD}', '\u{200B}',
    '\u{2060}', '\u{3000}', '(', ')', '\u{FF08}', '\u{FF09}', '\u{FF3B}', '\u{FF3D}', '.', '[',
    ']', '/', '~', '\u{2053}', '\u{223C}', '\u{FF5E}',
];

/// The zeros of the supported decimal scripts: each is followed by 1 to 9.
pub const ZEROS: &[u32] = &[
    0x30, 0xFF10, 0x660, 0x6F0, 0x7C0, 0x966, 0x9E6, 0xA66, 0xAE6, 0xB66, 0xBE6, 0xC66, 0xCE6,
    0xD66, 0xE50, 0xED0,
];

pub fn is_punctuation(c: char) -> bool {
    PUNCTUATION.contains(&c)
}

pub fn digit_value(c: char) -> Option<u32> {
    let c = c as u32;
    ZEROS.iter().find(|&&z| c >= z && c < z + 10).map(|z| c - z)
}

fn is_plus(c: char) -> bool {
    c == '+' || c == '\u{FF0B}'
}

/// A viable number: two digits, or pluses, then at least three digits among
/// punctuation and stars, then also letters.
pub fn viable(s: &str) -> bool {
    if s.chars().count() == 2 && s.chars().all(|c| digit_value(c).is_some()) {
        return true;
    }
    let rest: Vec<char> = s.chars().skip_while(|&c| is_plus(c)).collect();
    let filler = |c: char| is_punctuation(c) || c == '*';
    let mut digits = 0;
    for &c in &rest {
        if digit_value(c).is_some() {
            digits += 1;
        } else if filler(c) {
        } else if c.is_ascii_alphabetic() {
            // Letters only after three digits.
            if digits < 3 {
                return false;
            }
        } else {
            return false;
        }
    }
    digits >= 3
}

fn letter_digit(c: char) -> Option<char> {
    Some(match c.to_ascii_uppercase() {
        'A'..='C' => '2',
        'D'..='F' => '3',
        'G'..='I' => '4',
        'J'..='L' => '5',
        'M'..='O' => '6',
        'P'..='S' => '7',
        'T'..='V' => '8',
        'W'..='Z' => '9',
        _ => return None,
    })
}

/// At least three letters on a line make a vanity number.
pub fn vanity(s: &str) -> bool {
    s.split('\n')
        .any(|l| l.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3)
}

pub fn normalize(s: &str, vanity: bool) -> String {
    s.chars()
        .filter_map(|c| {
            digit_value(c)
                .and_then(|d| char::from_digit(d, 10))
                .or_else(|| if vanity { letter_digit(c) } else { None })
        })
        .collect()
}

/// The ways to write an extension at the end of a number.
const EXTENSION: &str = concat!(
    r"(?i)(?:;ext=(\p{Nd}{0,7})",
    r"|[ \u{A0}\t,]*",
    r"(?:e?xt(?:ensi(?:o\u{301}?|\u{F3}))?n?|\u{FF45}?\u{FF58}\u{FF54}\u{FF4E}?",
    r"|[,;x\u{FF58}#\u{FF03}~\u{FF5E}]|int|anexo|\u{FF49}\u{FF4E}\u{FF54})",
    r"[:.\u{FF0E}]?[ \u{A0}\t,-]*(\p{Nd}{0,7})#?",
    r"|[- ]+(\p{Nd}{1,5})#)$",
);

pub struct Text {
    ext: Regex,
    nd: Regex,
    end: Regex,
}

impl Default for Text {
    fn default() -> Text {
        Text {
            ext: Regex::new(EXTENSION).unwrap(),
            nd: Regex::new(r"[+\u{FF0B}\p{Nd}]").unwrap(),
            end: Regex::new(r"[^\p{N}\p{L}#]+$").unwrap(),
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Raw {
    national: String,
    prefix: Option<String>,
    ext: Option<String>,
}

impl Text {
    /// Text in the RFC 3966 syntax: no spaces, only visual separators and
    /// (hexadecimal) digits, parameters at the end.
    fn rfc3966(&self, s: &str) -> Option<Raw> {
        if s.contains(' ') {
            return None;
        }
        let mut s = s;
        if s.get(..4).is_some_and(|p| p.eq_ignore_ascii_case("tel:")) {
            s = &s[4..];
        }
        let visual = |c: char| matches!(c, '-' | '.' | '(' | ')');
        let body = |c: char| c.is_ascii_hexdigit() || visual(c);

        let mut prefix = None;
        if let Some(rest) = s.strip_prefix('+') {
            let digits = rest
                .find(|c: char| !c.is_ascii_digit())
                .unwrap_or(rest.len());
            if digits > 0 && rest[digits..].starts_with(visual) {
                prefix = Some(rest[..digits].to_string());
                s = &rest[digits..];
            }
        }

        let signed = s.starts_with('+');
        let start = signed as usize;
        let end = s[start..]
            .find(|c: char| !body(c))
            .map(|i| i + start)
            .unwrap_or(s.len());
        if end == start {
            return None;
        }
        let national = s[..end].to_string();
        let mut rest = &s[end..];
        if !rest.is_empty() && !rest.starts_with(';') {
            return None;
        }

        let mut params: Vec<(&str, &str)> = Vec::new();
        while let Some(p) = rest.strip_prefix(';') {
            let k = p
                .find(|c: char| !(c.is_ascii_alphanumeric() || c == '-'))
                .unwrap_or(p.len());
            let Some(v) = p[k..].strip_prefix('=') else {
                break;
            };
            let e = v
                .find(|c: char| {
                    !(c.is_ascii_alphanumeric()
                        || "[]/:&+$-_.!~*'()".contains(c)
                        || digit_value(c).is_some())
                })
                .unwrap_or(v.len());
            params.push((&p[..k], &v[..e]));
            rest = &v[e..];
        }
        if params.is_empty() && !rest.is_empty() {
            return None;
        }
        let get = |key: &str| {
            params
                .iter()
                .rev()
                .find(|(k, _)| k.eq_ignore_ascii_case(key))
                .map(|(_, v)| *v)
        };

        Some(Raw {
            prefix: prefix.or_else(|| {
                get("phone-context")
                    .filter(|_| !signed)
                    .map(|v| v.strip_prefix('+').unwrap_or(v).to_string())
            }),
            ext: get("ext").map(String::from),
            national,
        })
    }

    /// Text a human wrote: the number may be surrounded by other things.
    fn natural(&self, s: &str) -> Option<Raw> {
        let mut s = &s[self.nd.find(s)?.start()..];
        // Only the first of two extensions.
        for (i, c) in s.char_indices() {
            if (c == '/' || c == '\\') && s[i + 1..].trim_start_matches(' ').starts_with('x') {
                s = &s[..i];
                break;
            }
        }
        if let Some(m) = self.end.find(s) {
            s = &s[..m.start()];
        }
        if s.is_empty() {
            return None;
        }
        let mut raw = Raw {
            national: s.to_string(),
            ..Raw::default()
        };
        if let Some(c) = self.ext.captures(s) {
            raw.national = s[..c.get(0).unwrap().start()].to_string();
            raw.ext = c
                .iter()
                .skip(1)
                .flatten()
                .next()
                .map(|m| m.as_str().to_string());
        }
        Some(raw)
    }
}

impl Model {
    /// What a text means, given the region it is written for.
    pub fn parse(&self, text: &Text, hint: Option<&str>, s: &str) -> Result<Num, &'static str> {
        let raw = text
            .rfc3966(s)
            .or_else(|| text.natural(s))
            .ok_or("NoNumber")?;
        let shown = format!("{}{}", raw.prefix.as_deref().unwrap_or(""), raw.national);
        if !viable(&shown) {
            return Err("NoNumber");
        }

        let vanity = vanity(&raw.national);
        let norm = |s: &str| normalize(s, vanity);
        let digits = norm(&raw.national);
        let ext = raw.ext.as_deref().map(norm).filter(|e| !e.is_empty());

        // Where does the country code come from?
        let idd = |digits: &str| -> Option<usize> {
            let end = match hint {
                None => digits.starts_with("00").then_some(2),
                Some(id) => self
                    .terr(id)
                    .and_then(|t| t.idd.as_ref())
                    .and_then(|re| re.find(digits))
                    .map(|m| m.end()),
            }?;
            (!digits[end..].starts_with('0')).then_some(end)
        };

        let (source, digits) = if let Some(p) = &raw.prefix {
            let p = norm(p);
            if p.is_empty() {
                return Err("InvalidCountryCode");
            }
            let known = !p.starts_with('0')
                && p.parse::<u16>()
                    .is_ok_and(|c| self.by_code.contains_key(&c));
            if known && digits.len() <= 2 {
                return Err("TooShortNsn");
            }
            ("Plus", format!("{p}{digits}"))
        } else if raw.national.starts_with(is_plus) {
            // After a plus, only something that cannot be a country code can
            // be an IDD.
            match digits.starts_with('0').then(|| idd(&digits)).flatten() {
                Some(end) => ("Plus", digits[end..].to_string()),
                None => ("Plus", digits),
            }
        } else {
            match idd(&digits) {
                Some(end) => ("Idd", digits[end..].to_string()),
                None => ("Default", digits),
            }
        };

        let (code, source, national) = if source != "Default" {
            if digits.len() <= 2 {
                return Err(match source {
                    "Idd" => "TooShortAfterIdd",
                    _ => "TooShortNsn",
                });
            }
            let len = (1..=3)
                .find(|&l| {
                    !digits.starts_with('0')
                        && self.by_code.contains_key(&digits[..l].parse().unwrap())
                })
                .ok_or("InvalidCountryCode")?;
            (
                digits[..len].parse::<u16>().unwrap(),
                source,
                digits[len..].to_string(),
            )
        } else {
            let t = hint
                .and_then(|id| self.terr(id))
                .ok_or("InvalidCountryCode")?;
            match digits.strip_prefix(&t.code.to_string()) {
                Some(rest) if !t.viable(&digits) => (t.code, "Number", rest.to_string()),
                _ => (t.code, "Default", digits),
            }
        };

        let t = if source == "Default" {
            hint.and_then(|id| self.terr(id))
        } else {
            self.region(code, national.trim_start_matches('0'))
        };

        let mut national = national;
        let mut carrier = None;
        if let Some(t) = t {
            // A country code is followed by the number alone: what is fine as it
            // is carries no prefix.
            let (n, c) = if source != "Default" && t.viable(&national) {
                (national.clone(), None)
            } else {
                strip_national(t, &national)
            };
            if !too_short(t, &n) {
                national = n;
                carrier = c;
            }
        }

        if national.len() < 2 {
            return Err("TooShortNsn");
        }
        if national.len() > 17 {
            return Err("TooLong");
        }
        // The value has to fit in 56 bits.
        if national.parse::<u64>().unwrap() >> 56 != 0 {
            return Err("TooLong");
        }

        Ok(Num {
            code,
            source,
            national,
            ext,
            carrier,
        })
    }
}

pub fn too_short(t: &Terr, nsn: &str) -> bool {
    let g = t.general();
    let len = nsn.len() as u16;
    !g.local.contains(&len) && g.lengths.first().is_some_and(|&min| len < min)
}

/// Remove the national prefix and the carrier code, unless that would break a
/// number which is fine as it is.
pub fn strip_national(t: &Terr, digits: &str) -> (String, Option<String>) {
    let fine = t.viable(digits);
    let ok = |stripped: &str| !fine || t.viable(stripped);

    let (national, carrier) = match &t.np_parse {
        None => match t
            .np
            .as_ref()
            .and_then(|np| digits.strip_prefix(np.as_str()))
        {
            Some(rest) if ok(rest) => (rest.to_string(), None),
            _ => (digits.to_string(), None),
        },
        Some(re) => match re.captures(digits) {
            None => (digits.to_string(), None),
            Some(caps) => {
                let groups = caps.len() - 1;
                let last = (groups > 0).then(|| caps.get(groups)).flatten();
                let rest = &digits[caps.get(0).unwrap().end()..];
                let transformed = match (&t.transform, last) {
                    (Some(rule), Some(_)) => Some(format!("{}{}", expand(rule, re, digits), rest)),
                    _ => None,
                };
                let carrier = if last.is_none() || (transformed.is_some() && groups == 1) {
                    None
                } else {
                    caps.get(1).map(|m| m.as_str().to_string())
                };
                let new = transformed.unwrap_or_else(|| rest.to_string());
                if ok(&new) {
                    (new, carrier)
                } else {
                    (digits.to_string(), None)
                }
            }
        },
    };

    // What is left may still carry the prefix; or the prefix was all there was
    // to remove.
    let bare = |s: &str| {
        t.np.as_ref()
            .and_then(|np| s.strip_prefix(np.as_str()))
            .filter(|rest| t.viable(rest))
            .map(String::from)
    };
    if !t.viable(&national) {
        if let Some(rest) = bare(&national) {
            return (rest, carrier);
        }
        if let Some(rest) = bare(digits) {
            return (rest, None);
        }
    }
    (national, carrier)
}

/// What the digits dialled in a region may stand for, among its numbers.
pub fn readings(t: &Terr, digits: &str) -> Vec<String> {
    let mut all = vec![digits.to_string()];
    let np = |s: &str| {
        t.np.as_ref()
            .and_then(|np| s.strip_prefix(np.as_str()))
            .map(String::from)
    };
    all.extend(np(digits));
    if let Some(re) = &t.np_parse
        && let Some(caps) = re.captures(digits)
    {
        let rest = digits[caps.get(0).unwrap().end()..].to_string();
        let groups = caps.len() - 1;
        if let Some(rule) = &t.transform
            && groups > 0
            && caps.get(groups).is_some()
        {
            all.push(format!("{}{}", expand(rule, re, digits), rest));
        }
        all.extend(np(&rest));
        all.push(rest);
    }
    all.retain(|s| t.viable(s));
    all.sort();
    all.dedup();
    all
}

/// Whether the digits, dialled in a region, can only be this number.
pub fn only_reading(t: &Terr, digits: &str, nsn: &str) -> bool {
    readings(t, digits).iter().all(|r| r == nsn)
}

/// Whether the digits start like a call abroad.
pub fn dials_abroad(t: &Terr, digits: &str) -> bool {
    t.idd
        .as_ref()
        .and_then(|re| re.find(digits))
        .is_some_and(|m| !digits[m.end()..].starts_with('0'))
}

/// How an extension may be labelled: what ends like one is read as one.
pub fn ends_like_extension(text: &Text, s: &str) -> bool {
    text.ext.is_match(s)
}
