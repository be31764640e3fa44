//! Generators: numbers out of the metadata's own patterns, and the texts
//! people write them in.

use crate::model::{Desc, GENERAL, KINDS, NO_INTL, PUNCTUATION, Terr, ZEROS};
use crate::src::Src;
use crate::world::World;
use regex::Regex;
use regex_syntax::hir::{Class, Hir, HirKind};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::LazyLock;

thread_local! {
    static HIRS: RefCell<HashMap<String, Rc<Hir>>> = RefCell::new(HashMap::new());
}

fn hir(pattern: &str) -> Rc<Hir> {
    HIRS.with(|h| {
        h.borrow_mut()
            .entry(pattern.to_string())
            .or_insert_with(|| {
                let p: String = pattern
                    .chars()
                    .filter(|c| !c.is_whitespace())
                    .collect::<String>()
                    .replace("\\d", "0-9")
                    .replace("[0-9]", "\u{1}")
                    .replace("0-9", "[0-9]")
                    .replace('\u{1}', "[0-9]");
                // A \d inside a class became a nested class, which is fine.
                Rc::new(regex_syntax::parse(&p).unwrap())
            })
            .clone()
    })
}

/// A string the pattern matches.
pub fn matching(src: &mut Src, pattern: &str) -> String {
    let mut out = String::new();
    walk(src, &hir(pattern), &mut out);
    out
}

fn walk(src: &mut Src, h: &Hir, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => (),
        HirKind::Literal(l) => out.push_str(std::str::from_utf8(&l.0).unwrap()),
        HirKind::Class(Class::Unicode(c)) => {
            let total: u64 = c
                .iter()
                .map(|r| r.end() as u64 - r.start() as u64 + 1)
                .sum();
            let mut v = src.below(total);
            for r in c.iter() {
                let n = r.end() as u64 - r.start() as u64 + 1;
                if v < n {
                    out.push(char::from_u32(r.start() as u32 + v as u32).unwrap());
                    return;
                }
                v -= n;
            }
        }
        HirKind::Class(Class::Bytes(_)) => unreachable!(),
        HirKind::Repetition(r) => {
            let max = r.max.unwrap_or(r.min + 6);
            let n = src.range(r.min as u64, max as u64);
            for _ in 0..n {
                walk(src, &r.sub, out);
            }
        }
        HirKind::Capture(c) => walk(src, &c.sub, out),
        HirKind::Concat(hs) => hs.iter().for_each(|h| walk(src, h, out)),
        HirKind::Alternation(hs) => {
            let i = src.below(hs.len() as u64) as usize;
            walk(src, &hs[i], out);
        }
    }
}

/// An index of a territory, each in its turn.
pub fn territory(src: &mut Src, w: &World) -> usize {
    src.strat(w.model.terrs.len() as u64) as usize
}

pub fn region<'w>(src: &mut Src, w: &'w World) -> &'w Terr {
    &w.model.terrs[w.regions[src.strat(w.regions.len() as u64) as usize]]
}

pub fn any_region<'w>(src: &mut Src, w: &'w World) -> &'w Terr {
    &w.model.terrs[*src.pick(&w.regions)]
}

/// The kinds of numbers a region has.
pub fn kinds(t: &Terr) -> Vec<usize> {
    (0..KINDS.len())
        .filter(|&k| k != NO_INTL && k != GENERAL && t.descs[k].is_some())
        .collect()
}

pub fn of_desc(src: &mut Src, d: &Desc) -> String {
    if d.example.as_ref().is_some_and(|e| !e.is_empty()) && src.chance(1, 24) {
        return d.example.clone().unwrap();
    }
    // The pattern may allow more lengths than are possible.
    let mut s = matching(src, &d.pattern);
    for _ in 0..3 {
        if d.matches(&s) {
            break;
        }
        s = matching(src, &d.pattern);
    }
    s
}

/// A national significant number of the region, valid most of the time.
pub fn nsn(src: &mut Src, t: &Terr) -> String {
    let ks = kinds(t);
    if ks.is_empty() || src.chance(1, 16) {
        return of_desc(src, t.general());
    }
    let k = ks[src.strat(ks.len() as u64) as usize];
    of_desc(src, t.descs[k].as_ref().unwrap())
}

/// A valid number of the region: with a type, and attributed to it.
pub fn valid_nsn(src: &mut Src, w: &World, t: &Terr) -> Option<String> {
    for _ in 0..6 {
        let n = nsn(src, t);
        if t.classify(&n) != "Unknown" && w.model.region(t.code, &n).is_some_and(|r| r.id == t.id) {
            return Some(n);
        }
    }
    None
}

/// A number that more than one region of its code describes.
pub fn contested<'w>(src: &mut Src, w: &'w World) -> Option<(&'w Terr, String)> {
    if w.shared.is_empty() {
        return None;
    }
    let t = &w.model.terrs[*src.pick(&w.shared)];
    for _ in 0..12 {
        let n = nsn(src, t);
        let claims = |t: &Terr| t.classify(&n) != "Unknown";
        let all = &w.model.by_code[&t.code];
        if all.iter().filter(|&&i| claims(&w.model.terrs[i])).count() > 1 {
            return Some((t, n));
        }
    }
    None
}

/// A number that is almost one of the region.
pub fn near_nsn(src: &mut Src, t: &Terr) -> String {
    let mut s: Vec<char> = nsn(src, t).chars().collect();
    for _ in 0..=src.below(2) {
        let len = s.len();
        match src.below(7) {
            0 if len > 0 => {
                let i = src.below(len as u64) as usize;
                s[i] = src.digit();
            }
            1 if len > 1 => {
                s.pop();
            }
            2 => {
                let d = src.digit();
                s.push(d);
            }
            3 if len > 1 => {
                let i = src.below(len as u64 - 1) as usize;
                s.swap(i, i + 1);
            }
            4 => s.insert(0, '0'),
            5 => {
                let d = src.digit();
                s.insert(0, d);
            }
            _ if len > 1 => {
                s.remove(0);
            }
            _ => s.push('0'),
        }
    }
    s.into_iter().collect()
}

/// Any digits: lengths around what a region allows, and anything.
pub fn random_digits(src: &mut Src, t: &Terr) -> String {
    let lengths = &t.general().lengths;
    let n = if !lengths.is_empty() && src.chance(3, 4) {
        *src.pick(lengths) as usize
    } else {
        src.range(1, 20) as usize
    };
    src.digits(n)
}

pub fn any_nsn(src: &mut Src, t: &Terr) -> String {
    match src.weighted(&[8, 4, 2, 1]) {
        0 => nsn(src, t),
        1 => near_nsn(src, t),
        2 => random_digits(src, t),
        _ => {
            let zeros = src.below(6) as usize;
            let n = src.range(1, 17) as usize;
            format!("{}{}", "0".repeat(zeros), src.digits(n))
        }
    }
}

/// Digits of an IDD of the region, if it has one.
pub fn idd(src: &mut Src, t: &Terr) -> Option<String> {
    t.idd_pattern.as_ref().map(|p| matching(src, p))
}

/// Digits its national prefix pattern matches.
pub fn national_prefix(src: &mut Src, t: &Terr) -> Option<String> {
    match (&t.np_parse_pattern, &t.np) {
        (Some(p), np) => {
            if np.is_some() && src.chance(1, 3) {
                return np.clone();
            }
            Some(matching(src, p))
        }
        (None, np) => np.clone(),
    }
}

// ---------------------------------------------------------------------------
// Texts
// ---------------------------------------------------------------------------

/// Punctuation that means nothing else wherever it stands between digits.
pub fn plain_punctuation() -> Vec<char> {
    PUNCTUATION
        .iter()
        .copied()
        .filter(|c| !matches!(c, 'x' | '~' | '\u{FF5E}'))
        .collect()
}

pub fn write_digit(src: &mut Src, d: char, script: u32) -> char {
    let _ = src;
    char::from_u32(script + d.to_digit(10).unwrap()).unwrap()
}

/// More than a text usually has, around lengths an implementation may care about.
pub fn many(src: &mut Src) -> u64 {
    let around = *src.pick(&[16u64, 32, 64, 128, 256, 512, 1024]);
    around - 8 + src.below(17)
}

/// Write the digits with separators and possibly in other scripts; a leading
/// plus stays in front.
pub fn decorate(src: &mut Src, s: &str) -> String {
    let punct = plain_punctuation();
    let density = src.below(4);
    let scripts = src.weighted(&[4, 1, 1]);
    let one = *src.pick(ZEROS);
    let favourite = if src.chance(1, 2) {
        Some(*src.pick(&punct))
    } else {
        None
    };
    let total = s.chars().filter(|c| c.is_ascii_digit()).count();
    let mut seen = 0;
    // Three of these would be letters of a vanity number.
    let mut xs = 0;
    let long = src.chance(1, 40);
    let mut out = String::new();
    for c in s.chars() {
        if c.is_ascii_digit() {
            if seen > 0 && density > 0 && src.chance(density, 4) {
                let n = if long && src.chance(1, 8) {
                    many(src)
                } else {
                    1 + src.below(8) / 6
                };
                for _ in 0..n {
                    // Symbols that could start an extension, only where too
                    // many digits follow for one.
                    let far = total - seen > 7;
                    if far && xs < 2 && src.chance(1, 16) && !out.ends_with(['/', '\\', ' ']) {
                        let c = *src.pick(&['x', '~', '\u{FF5E}']);
                        xs += (c == 'x') as u32;
                        out.push(c);
                    } else {
                        out.push(favourite.unwrap_or_else(|| *src.pick(&punct)));
                    }
                }
            }
            seen += 1;
            let script = match scripts {
                0 => 0x30,
                1 => one,
                _ => *src.pick(ZEROS),
            };
            let d = write_digit(src, c, script);
            out.push(d);
        } else {
            out.push(c);
        }
    }
    out
}

/// Words before a number: none of them can be part of one.
pub const BEFORE: &[&str] = &[
    "",
    "Tel: ",
    "phone ",
    "call me: ",
    "(",
    "\" ",
    "T\u{e9}l\u{e9}phone : ",
    "☎ ",
    "\t",
    "\n",
    "Fax no. ",
    "##",
    "**",
    "My number is ",
    "電話 ",
    ": ",
    "/ ",
    "x ",
    "ab c",
    "(((",
    " ",
];

/// What may trail a number without being part of it.
pub const AFTER: &[&str] = &[
    "", " ", ".", ")", ", ", "!", "\t", "\n", ";", " :)", "\u{3002}", "…", "\"", "?", " - ", "*",
    "))", "»", "\u{200B}",
];

fn any_char(src: &mut Src) -> char {
    const SOME: &str = "()[]{}<>-_.,:;!?*#%&=/\\|'\"@~^ \t\nabefxTEL½²①Ⅳ㊀٪٫éßΩж中あ한\u{301}\u{200B}\u{200F}\u{2060}\u{FEFF}☎📞";
    if src.chance(2, 3) {
        SOME.chars()
            .nth(src.below(SOME.chars().count() as u64) as usize)
            .unwrap()
    } else {
        let hi = *src.pick(&[0x80u64, 0x800, 0x3000, 0x10000, 0x110000]);
        char::from_u32(src.below(hi) as u32).unwrap_or('\u{FFFD}')
    }
}

/// A character that no number has, nor introduces an extension. At the end of a
/// number, only a letter or a numeral belongs to it.
pub fn foreign(src: &mut Src, end: bool) -> char {
    static LETTER: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"^[\p{L}\p{N}]$").unwrap());
    for _ in 0..20 {
        let c = if src.chance(1, 3) {
            *src.pick(&[
                '½', '²', '①', 'Ⅳ', '㊀', '৴', '𝟎', '〇', '一', 'é', 'ª', 'ー',
            ])
        } else {
            any_char(src)
        };
        let label = ('\u{FF03}'..='\u{FF5E}').contains(&c);
        if !c.is_ascii()
            && !label
            && !crate::model::is_punctuation(c)
            && crate::model::digit_value(c).is_none()
            && (!end || LETTER.is_match(&c.to_string()))
        {
            return c;
        }
    }
    '½'
}

/// Any text before a number: no plus, no digit, and no RFC 3966.
pub fn before(src: &mut Src) -> String {
    static START: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[+\x{FF0B}\p{Nd}]").unwrap());
    if src.chance(1, 2) {
        return src.pick(BEFORE).to_string();
    }
    let n = if src.chance(1, 24) {
        many(src)
    } else {
        src.range(1, 8)
    };
    let mut s: String = (0..n).map(|_| any_char(src)).collect();
    s = START.replace_all(&s, "").into_owned();
    if !s.contains(' ') {
        s.push(' ');
    }
    s
}

/// Any text after a number: neither letters, numerals nor a hash.
pub fn after(src: &mut Src) -> String {
    static PART: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[#\p{L}\p{N}]").unwrap());
    if src.chance(1, 2) {
        return src.pick(AFTER).to_string();
    }
    let n = if src.chance(1, 24) {
        many(src)
    } else {
        src.range(1, 8)
    };
    let s: String = (0..n).map(|_| any_char(src)).collect();
    PART.replace_all(&s, "").into_owned()
}

/// Parameters of an RFC 3966 number that say nothing about it.
pub fn parameters(src: &mut Src, least: u64) -> Vec<String> {
    let n = match src.below(16) {
        0..=11 => src.range(least, 2),
        12..=14 => src.range(3, 6),
        _ => src.range(7, 40),
    };
    (0..n)
        .map(|_| {
            src.pick(&["isub=12", "a=b", "x-y=+[1]", "EXTRA=0", "q=1-2"])
                .to_string()
        })
        .collect()
}

/// How the extension is introduced, and how it ends.
pub const EXT_BEFORE: &[&str] = &[
    ";ext=",
    " ext. ",
    " ext ",
    " ext",
    "ext",
    " EXT ",
    " extn ",
    " extn. ",
    " xtn ",
    " xt ",
    " extensi\u{f3}n ",
    " extension ",
    " extensio\u{301}n ",
    " extensi\u{f3} ",
    " x",
    "x",
    " x ",
    " X",
    " # ",
    "#",
    " #",
    ",",
    ", ",
    ";",
    " ~ ",
    "~",
    " int ",
    "int. ",
    " int",
    " anexo ",
    " Anexo ",
    "anexo:",
    " \u{FF58}",
    "\u{FF03}",
    "\u{FF5E}",
    " \u{FF45}\u{FF58}\u{FF54}\u{FF4E} ",
    " \u{FF49}\u{FF4E}\u{FF54} ",
    " \u{FF58}\u{FF54} ",
    ",x",
    ", ext ",
    "\u{A0}ext\u{FF0E}\u{A0}",
    " ext-",
    " ext:,",
];

const EXT_CORE: &[&str] = &[
    "ext",
    "xt",
    "extn",
    "xtn",
    "extensio",
    "extension",
    "extensio\u{301}",
    "extensio\u{301}n",
    "extensi\u{F3}",
    "extensi\u{F3}n",
    "\u{FF58}\u{FF54}",
    "\u{FF45}\u{FF58}\u{FF54}",
    "\u{FF58}\u{FF54}\u{FF4E}",
    "\u{FF45}\u{FF58}\u{FF54}\u{FF4E}",
    ",",
    ";",
    "x",
    "\u{FF58}",
    "#",
    "\u{FF03}",
    "~",
    "\u{FF5E}",
    "int",
    "anexo",
    "\u{FF49}\u{FF4E}\u{FF54}",
];

/// What may stand between a number and its extension, by the grammar.
pub fn ext_label(src: &mut Src) -> String {
    if src.chance(1, 3) {
        return src.pick(EXT_BEFORE).to_string();
    }
    let mut out = String::new();
    for _ in 0..src.below(3) {
        out.push(*src.pick(&[' ', '\u{A0}', '\t', ',']));
    }
    out.push_str(src.pick(EXT_CORE));
    out.push_str(src.pick(&["", "", ":", ".", "\u{FF0E}"]));
    for _ in 0..src.below(4) {
        out.push(*src.pick(&[' ', '-', '\u{A0}', '\t', ',']));
    }
    out
}

/// Any digits, since nothing limits the length of what is stored.
pub fn part_digits(src: &mut Src, max: u64) -> String {
    match src.below(48) {
        47 => {
            let n = many(src);
            ext_digits(src, n)
        }
        45 | 46 => ext_digits(src, 40),
        _ => ext_digits(src, max),
    }
}

pub fn ext_digits(src: &mut Src, max: u64) -> String {
    let n = src.range(1, max) as usize;
    let mut s = src.digits(n);
    if src.chance(1, 6) {
        s.replace_range(0..1, "0");
    }
    s
}

pub const KEYPAD: [&str; 10] = [
    "", "", "ABC", "DEF", "GHI", "JKL", "MNO", "PQRS", "TUV", "WXYZ",
];

/// Soup of the characters that matter to the parser.
pub fn soup(src: &mut Src, max: u64) -> String {
    const TOKENS: &[&str] = &[
        "0",
        "1",
        "2",
        "3",
        "4",
        "5",
        "6",
        "7",
        "8",
        "9",
        "00",
        "011",
        "44",
        "+",
        "+",
        "\u{FF0B}",
        "-",
        " ",
        "(",
        ")",
        ".",
        "/",
        "\\",
        "x",
        "X",
        "*",
        "#",
        ";",
        ",",
        ":",
        "=",
        "~",
        "ext",
        ";ext=",
        "tel:",
        "TEL:",
        ";phone-context=",
        ";phone-context=+",
        ";isub=",
        "[",
        "]",
        "a",
        "b",
        "c",
        "e",
        "F",
        "z",
        "é",
        "\u{301}",
        "\u{660}",
        "\u{669}",
        "\u{FF10}",
        "\u{FF19}",
        "\u{966}",
        "\u{e50}",
        "\u{1d7ce}",
        "\u{200B}",
        "\u{2060}",
        "\u{3000}",
        "\u{A0}",
        "\u{AD}",
        "\u{FF58}",
        "\u{FF03}",
        "\u{FF5E}",
        "\u{2053}",
        "\u{FF08}",
        "\u{FF0E}",
        "\u{2160}",
        "½",
        "\n",
        "\t",
        "\r",
        "\0",
        "%41",
        "&",
        "$",
        "$1",
        "@",
        "!",
        "'",
        "_",
        "anexo",
        "int",
        "\u{10FFFF}",
        "👍",
        "123",
        "4567",
        "650253",
        "0000000",
        "9999999999",
        "\u{202A}",
        "\u{202C}",
        "?",
        "o\u{301}",
        "\u{FF45}\u{FF58}\u{FF54}",
        "\u{212A}",
        "\u{17F}",
        "\u{130}",
        "\u{7C0}",
        "\u{D66}",
        "\u{ED9}",
    ];
    let n = src.below(max + 1);
    let digits = src.below(3);
    let mut s = String::new();
    for _ in 0..n {
        if digits > 0 && src.chance(digits, 3) {
            s.push(src.digit());
        } else {
            s.push_str(src.pick(TOKENS));
        }
    }
    s
}

/// Any text at all.
pub fn unicode(src: &mut Src, max: u64) -> String {
    let n = src.below(max + 1);
    (0..n)
        .map(|_| {
            let hi = *src.pick(&[0x80u64, 0x800, 0x3000, 0x10000, 0x110000]);
            char::from_u32(src.below(hi) as u32).unwrap_or('\u{FFFD}')
        })
        .collect()
}

/// Small edits of a text.
pub fn mutate(src: &mut Src, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..=src.below(3) {
        let len = c.len() as u64;
        match src.below(6) {
            0 if len > 0 => {
                let i = src.below(len) as usize;
                c.remove(i);
            }
            1 => {
                let i = src.below(len + 1) as usize;
                let t = soup(src, 1);
                c.splice(i..i, t.chars());
            }
            2 if len > 0 => {
                let i = src.below(len) as usize;
                let t = soup(src, 1);
                c.splice(i..i + 1, t.chars());
            }
            3 if len > 1 => {
                let i = src.below(len - 1) as usize;
                c.swap(i, i + 1);
            }
            4 if len > 0 => {
                let i = src.below(len) as usize;
                let j = (i + 1 + src.below(5) as usize).min(c.len());
                let part: Vec<char> = c[i..j].to_vec();
                c.splice(i..i, part);
            }
            _ if len > 0 => {
                let i = src.below(len) as usize;
                c.truncate(i);
            }
            _ => (),
        }
    }
    c.into_iter().collect()
}

/// A dialled form of a number, for some hint: what a person would write.
pub fn phone_text(src: &mut Src, w: &World, t: &Terr) -> (Option<String>, String) {
    let n = any_nsn(src, t);
    let home = (t.id != "001").then(|| t.id.clone());
    let other = |src: &mut Src| Some(any_region(src, w).id.clone());

    let (hint, base) = match src.below(8) {
        0 => (None, format!("+{}{n}", t.code)),
        1 => (other(src), format!("+{}{n}", t.code)),
        2 => (home, n.clone()),
        3 => {
            let np = national_prefix(src, t).unwrap_or_default();
            (home, format!("{np}{n}"))
        }
        4 => {
            let r = any_region(src, w);
            let i = idd(src, r).unwrap_or_default();
            (Some(r.id.clone()), format!("{i}{}{n}", t.code))
        }
        5 => (None, format!("00{}{n}", t.code)),
        6 => (home, format!("{}{n}", t.code)),
        _ => {
            let np = national_prefix(src, t).unwrap_or_default();
            (
                if src.chance(1, 2) { home } else { other(src) },
                format!("+{}{np}{n}", t.code),
            )
        }
    };

    let mut s = if src.chance(1, 2) {
        decorate(src, &base)
    } else {
        base
    };
    if src.chance(1, 8) {
        let i = src.below(12).min(s.chars().count() as u64) as usize;
        let at = s.char_indices().nth(i).map(|(i, _)| i).unwrap_or(s.len());
        // Letters for the tail.
        let tail: String = s[at..]
            .chars()
            .map(|c| match c.to_digit(10) {
                Some(d) if d >= 2 => src.pick(KEYPAD[d as usize].as_bytes()).to_owned() as char,
                _ => c,
            })
            .collect();
        s.truncate(at);
        s.push_str(&tail);
    }
    if src.chance(1, 4) {
        s.push_str(&ext_label(src));
        let e = part_digits(src, 9);
        s.push_str(&e);
        if src.chance(1, 5) {
            s.push('#');
        }
    }
    if src.chance(1, 6) {
        s = format!("{}{s}", src.pick(BEFORE));
    }
    if src.chance(1, 6) {
        s.push_str(src.pick(AFTER));
    }
    if src.chance(1, 8) {
        s = format!("{}{s}", src.pick(&["tel:", "TEL:", "Tel:", "tel: ", "tel"]));
    }
    if src.chance(1, 16) {
        let plus = *src.pick(&["+", ""]);
        s.push_str(&format!(";phone-context={plus}{}", t.code));
    }
    if src.chance(1, 12) {
        s.push_str(src.pick(&[
            ";phone-context=+44",
            ";phone-context=39",
            ";isub=12",
            ";ext=12",
            ";ext=",
            ";a=%41",
            ";phone-context=example.com",
            ";phone-context=+1-650",
            ";phone-context=",
            ";ext=12345678901",
        ]));
    }
    (hint, s)
}
