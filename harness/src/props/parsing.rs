//! What a text means: C02, C03 and C06 to C12.

use crate::engine::{Cx, Outcome, Property};
use crate::generate as g;
use crate::model::{self, Num, Terr};
use crate::props::plan::in_plan;
use crate::src::Src;
use crate::world::{self, World, outcome, world};
use crate::{check, plans, same};
use phonenumber::metadata::Database;

const M: &[&str] = &[
    "the embedded metadata is /repo/assets/PhoneNumberMetadata.xml, read by this harness itself",
    "the regex crate matches as specified",
];

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C02",
            rule: "a text (dialled form of a generated number, its mutation, or soup of the parser's \
                   characters) and a region; non-trivial when the reference finds a number in it, \
                   distinct by text and region",
            quick: 2_400_000,
            assumptions: M,
            run: agrees,
        },
        Property {
            id: "C03",
            rule: "as C02; non-trivial when the crate accepts the text, distinct by text and region",
            quick: 2_000_000,
            assumptions: &[],
            run: well_formed,
        },
        Property {
            id: "C06",
            rule: "a text with a plus and a country code, under six regions, some of that code; non-trivial when it \
                   parses, distinct by text",
            quick: 600_000,
            assumptions: &[],
            run: hint_independent,
        },
        Property {
            id: "C07",
            rule: "a number dialled in digits and the same with separators, other scripts, junk \
                   around it, tel:; non-trivial when the variant differs and the base parses, \
                   distinct by variant",
            quick: 1_500_000,
            assumptions: &[],
            run: notation,
        },
        Property {
            id: "C08",
            rule: "a valid number of each region and one dialled form of it; non-trivial unless the \
                   plan gives the digits another reading, distinct by form, region and number",
            quick: 1_800_000,
            assumptions: M,
            run: dialling,
        },
        Property {
            id: "C09",
            rule: "a valid number and an extension written in one of the documented ways; every \
                   case is non-trivial, distinct by text",
            quick: 1_500_000,
            assumptions: M,
            run: extension,
        },
        Property {
            id: "C10",
            rule: "a valid number with its tail written in letters; non-trivial with at least one \
                   letter, distinct by text",
            quick: 1_500_000,
            assumptions: M,
            run: letters,
        },
        Property {
            id: "C11",
            rule: "a number dialled after a string its region's prefix pattern matches, with a \
                   carrier or a transformation; non-trivial when something is removed, distinct by \
                   region and digits",
            quick: 1_500_000,
            assumptions: M,
            run: carrier,
        },
        Property {
            id: "C12",
            rule: "a text built to be rejected for one reason, or to be just acceptable; every case \
                   is non-trivial, distinct by text and region",
            quick: 1_500_000,
            assumptions: M,
            run: rejects,
        },
    ]
}

pub type Parsed = Result<Num, &'static str>;

pub fn parse(hint: Option<&str>, text: &str) -> Parsed {
    outcome(&phonenumber::parse(hint.and_then(world::id), text))
}

pub fn parse_in(db: &Database, hint: Option<&str>, text: &str) -> Parsed {
    outcome(&phonenumber::parse_with(db, hint.and_then(world::id), text))
}

pub fn random_hint(src: &mut Src, w: &World) -> Option<String> {
    src.chance(4, 5).then(|| g::any_region(src, w).id.clone())
}

pub fn any_text(src: &mut Src, w: &World) -> (Option<String>, String) {
    let t = &w.model.terrs[g::territory(src, w)];
    match src.weighted(&[48, 18, 12, 6, 1]) {
        4 => {
            // Long in one place or another.
            let (h, s) = g::phone_text(src, w, t);
            let n = g::many(src) as usize;
            let one = g::soup(src, 2);
            let at = src.below(s.chars().count() as u64 + 1) as usize;
            let (i, _) = s.char_indices().nth(at).unwrap_or((s.len(), ' '));
            (h, format!("{}{}{}", &s[..i], one.repeat(n), &s[i..]))
        }
        0 => g::phone_text(src, w, t),
        1 => {
            let (h, s) = g::phone_text(src, w, t);
            (h, g::mutate(src, &s))
        }
        2 => (random_hint(src, w), g::soup(src, 20)),
        _ => {
            let (h, s) = g::phone_text(src, w, t);
            let a = g::unicode(src, 4);
            let b = g::unicode(src, 4);
            (h, format!("{a}{s}{b}"))
        }
    }
}

fn agrees(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let (hint, text) = any_text(src, &w);
    cx.input = format!("parse({hint:?}, {text:?})");
    let expected = w.model.parse(&w.text, hint.as_deref(), &text);
    match &expected {
        Ok(n) => {
            cx.class(n.source);
            cx.nontrivial(&cx.input.clone());
        }
        Err(e) => cx.class(*e),
    }
    same!(parse(hint.as_deref(), &text), expected, "parse");
    Ok(())
}

fn well_formed(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let (hint, text) = any_text(src, &w);
    cx.input = format!("parse({hint:?}, {text:?})");
    let n = match phonenumber::parse(hint.as_deref().and_then(world::id), &text) {
        Ok(n) => n,
        Err(e) => {
            let e = world::error_name(&e);
            cx.class(e);
            check!(e != "MalformedInteger", "an internal error: {e}");
            return Ok(());
        }
    };
    let num = world::to_num(&n);
    cx.class(num.source);
    cx.nontrivial(&cx.input.clone());

    check!(
        w.model.by_code.contains_key(&num.code),
        "unknown country code {}",
        num.code
    );
    let len = num.national.len();
    check!((2..=17).contains(&len), "national number of {len} digits");
    check!(
        num.national.bytes().all(|b| b.is_ascii_digit()),
        "not digits: {}",
        num.national
    );
    check!(
        num.national.parse::<u64>() == Ok(n.national().value()),
        "value {} of {}",
        n.national().value(),
        num.national
    );
    for (what, s) in [("extension", &num.ext), ("carrier", &num.carrier)] {
        if let Some(s) = s {
            check!(
                !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()),
                "{what} {s:?}"
            );
        }
    }
    let plus =
        text.contains(['+', '\u{FF0B}']) || text.to_ascii_lowercase().contains(";phone-context=");
    match num.source {
        "Plus" => check!(plus, "a plus out of nowhere"),
        "Idd" => (),
        _ => {
            let id = hint.as_deref();
            check!(id.is_some(), "{} without a region", num.source);
            same!(
                Some(num.code),
                id.and_then(|i| w.model.terr(i)).map(|t| t.code),
                "code"
            );
        }
    }
    if num.carrier.is_some() {
        // Only a region whose prefix may contain a carrier code has one.
        check!(
            w.model.by_code[&num.code]
                .iter()
                .any(|i| w.capturing.contains(i)),
            "carrier {:?} in +{}",
            num.carrier,
            num.code
        );
    }

    // The digits come from the text, in order and without gaps, but for a
    // transformation.
    let letters = text.chars().filter(|c| c.is_ascii_alphabetic()).count();
    let transforms = w.model.by_code[&num.code]
        .iter()
        .any(|&i| w.model.terrs[i].transform.is_some());
    if letters == 0 && !transforms {
        let digits = model::normalize(&text, false);
        check!(
            digits.contains(&num.national),
            "{} is not in the text",
            num.national
        );
        if num.source == "Plus" || num.source == "Idd" {
            let code = num.code.to_string();
            check!(digits.contains(&code), "{code} is not in the text");
        }
    }
    Ok(())
}

fn hint_independent(src: &mut Src, cx: &mut Cx) -> Outcome {
    let tangled = src.chance(1, 20);
    plans!(src, 1, 5, tangled => other, w, db);
    if w.regions.is_empty() {
        return Ok(());
    }
    let t = &w.model.terrs[g::territory(src, w)];
    let n = g::any_nsn(src, t);
    let np = if src.chance(1, 4) {
        g::national_prefix(src, t).unwrap_or_default()
    } else {
        String::new()
    };
    let code = if src.chance(1, 16) {
        src.range(1, 999).to_string()
    } else {
        t.code.to_string()
    };
    let mut text = format!("+{code}{np}{n}");
    if src.chance(2, 3) {
        text = g::decorate(src, &text);
    }
    match src.below(6) {
        0 => {
            text.push_str(src.pick(g::EXT_BEFORE));
            text.push_str(&g::ext_digits(src, 7));
        }
        1 => text = format!("tel:{text}"),
        2 => {
            text = format!("{}{text}{}", src.pick(g::BEFORE), src.pick(g::AFTER));
        }
        3 => text = text.replacen('+', "\u{FF0B}", 1),
        _ => (),
    }
    cx.input = format!("{text:?}");
    in_plan(cx, &other);
    let base = parse_in(db, None, &text);
    match &base {
        Ok(n) => {
            cx.class(n.source);
            cx.nontrivial(&text);
        }
        Err(e) => cx.class(*e),
    }
    let mut hints = vec![];
    if t.id != "001" {
        hints.push(t.id.clone());
    }
    // Regions of the same country code have other prefixes.
    for _ in 0..2 {
        let i = *src.pick(&w.model.by_code[&t.code]);
        hints.push(w.model.terrs[i].id.clone());
    }
    hints.retain(|h| h != "001");
    for _ in 0..3 {
        hints.push(g::any_region(src, w).id.clone());
    }
    for h in hints {
        same!(
            parse_in(db, Some(&h), &text),
            base,
            "{text:?} with {h} and without a region"
        );
    }
    if let Ok(n) = &base {
        same!(n.source, "Plus", "source");
    }
    Ok(())
}

fn notation(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 5 => other, w, db);
    if w.regions.is_empty() {
        return Ok(());
    }
    let t = &w.model.terrs[g::territory(src, w)];
    let mut n = match src.below(4) {
        0 => g::any_nsn(src, t),
        _ => g::nsn(src, t),
    };
    while n.len() < 3 {
        n.push('1');
    }
    let home = (t.id != "001").then(|| t.id.clone());
    let (hint, base) = match src.below(5) {
        0 => (None, format!("+{}{n}", t.code)),
        1 => (random_hint(src, w), format!("+{}{n}", t.code)),
        2 => {
            let np = g::national_prefix(src, t).unwrap_or_default();
            (home, format!("{np}{n}"))
        }
        3 => {
            let r = g::any_region(src, w);
            let i = g::idd(src, r).unwrap_or_default();
            (Some(r.id.clone()), format!("{i}{}{n}", t.code))
        }
        _ => (home, n.clone()),
    };
    if src.chance(1, 12) {
        return uri(src, cx, db, hint, t.code, &n);
    }
    let mut text = g::decorate(src, &base);
    if text.starts_with('+') && src.chance(1, 4) {
        let plus = *src.pick(&["\u{FF0B}", "++", "+\u{FF0B}", "+(", "+ ", "\u{FF0B}-"]);
        text = format!("{plus}{}", &text[1..]);
    }
    if src.chance(1, 3) {
        text = format!("{}{text}", g::before(src));
    } else if src.chance(1, 4) {
        text = format!("{}{text}", src.pick(&["tel:", "TEL:", "Tel:", "tEL:"]));
    }
    if src.chance(1, 3) {
        text.push_str(&g::after(src));
    }
    cx.input = format!("{hint:?}: {base:?} / {text:?}");
    in_plan(cx, &other);
    let want = parse_in(db, hint.as_deref(), &base);
    match &want {
        Ok(n) => {
            cx.class(n.source);
            if text != base {
                cx.nontrivial(&format!("{hint:?}{text}"));
            }
        }
        Err(e) => cx.class(*e),
    }
    same!(
        parse_in(db, hint.as_deref(), &text),
        want,
        "{text:?} against {base:?} in {hint:?}"
    );
    Ok(())
}

/// The same URI in other letters, separators and order of its parameters.
fn uri(
    src: &mut Src,
    cx: &mut Cx,
    db: &Database,
    hint: Option<String>,
    code: u16,
    n: &str,
) -> Outcome {
    let ext = src.chance(1, 2).then(|| g::part_digits(src, 9));
    let mut params = vec![format!("phone-context={}{code}", src.pick(&["+", ""]))];
    params.extend(ext.iter().map(|e| format!("ext={e}")));
    let base = format!("tel:{n};{}", params.join(";"));
    for more in g::parameters(src, 0) {
        let at = src.below(params.len() as u64 + 1) as usize;
        params.insert(at, more);
    }
    if src.chance(1, 2) {
        params.rotate_left(1);
    }
    let scheme: String = "tel:"
        .chars()
        .map(|c| {
            if src.chance(1, 2) {
                c.to_ascii_uppercase()
            } else {
                c
            }
        })
        .collect();
    let mut shown = String::new();
    for (i, c) in n.chars().enumerate() {
        if i > 0 && src.chance(1, 4) {
            shown.push(*src.pick(&['-', '.', '(', ')']));
        }
        shown.push(c);
    }
    let text = format!("{scheme}{shown};{}", params.join(";"));
    cx.input = format!("{hint:?}: {base:?} / {text:?}");
    cx.class("URI");
    cx.nontrivial(&text);
    same!(
        parse_in(db, hint.as_deref(), &text),
        parse_in(db, None, &base),
        "{text:?} against {base:?} in {hint:?}"
    );
    Ok(())
}

fn is(code: u16, source: &'static str, national: &str) -> Num {
    Num {
        code,
        source,
        national: national.to_string(),
        ext: None,
        carrier: None,
    }
}

fn dialling(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 5 => other, w, db);
    if w.regions.is_empty() {
        return Ok(());
    }
    let t = &w.model.terrs[g::territory(src, w)];
    let Some(n) = g::valid_nsn(src, w, t) else {
        cx.class("no valid number");
        return Ok(());
    };
    let cc = t.code.to_string();
    let home = (t.id != "001").then(|| t.id.clone());
    let form = src.below(10);
    let (name, hint, digits, source): (_, Option<String>, String, _) = match form {
        0 => ("plus", random_hint(src, w), format!("+{cc}{n}"), "Plus"),
        1 => {
            let r = g::any_region(src, w);
            let Some(i) = g::idd(src, r) else {
                cx.class("no IDD");
                return Ok(());
            };
            let s = format!("{i}{cc}{n}");
            if r.idd.as_ref().unwrap().find(&s).map(|m| m.end()) != Some(i.len()) {
                cx.class("another IDD");
                return Ok(());
            }
            ("idd", Some(r.id.clone()), s, "Idd")
        }
        2 => ("00", None, format!("00{cc}{n}"), "Idd"),
        3 => (
            "rfc3966",
            random_hint(src, w),
            format!("tel:+{cc}-{n}"),
            "Plus",
        ),
        4 => (
            "phone-context",
            home.clone()
                .filter(|_| src.chance(1, 2))
                .or_else(|| random_hint(src, w)),
            {
                let context = format!("phone-context={}{cc}", src.pick(&["+", "+", ""]));
                let mut params = g::parameters(src, 0);
                let at = src.below(params.len() as u64 + 1) as usize;
                params.insert(at, context);
                format!("tel:{n};{}", params.join(";"))
            },
            "Plus",
        ),
        5 => (
            "params",
            random_hint(src, w),
            format!(
                "+{cc}-{n};{}{}",
                g::parameters(src, 1).join(";"),
                src.pick(&["", ";a=%b"])
            ),
            "Plus",
        ),
        _ if home.is_none() => {
            cx.class("not a region");
            return Ok(());
        }
        6 => ("national", home, n.clone(), "Default"),
        7 => {
            let Some(np) = &t.np else {
                cx.class("no national prefix");
                return Ok(());
            };
            ("prefix", home, format!("{np}{n}"), "Default")
        }
        8 => ("country code", home, format!("{cc}{n}"), "Number"),
        _ => {
            if t.np.as_deref() != Some("0") || n.starts_with('0') {
                cx.class("no national prefix");
                return Ok(());
            }
            (
                "plus and prefix",
                random_hint(src, w),
                format!("+{cc}0{n}"),
                "Plus",
            )
        }
    };
    cx.input = format!("{name}: parse({hint:?}, {digits:?})");
    in_plan(cx, &other);

    // The plan itself may give the digits a second meaning.
    let mut source = source;
    let clear = match form {
        6..=8 => {
            let (national, numbered) = match digits.strip_prefix(&cc) {
                Some(rest) if !t.viable(&digits) => (rest, true),
                _ => (digits.as_str(), false),
            };
            if form != 8 && numbered {
                source = "Number";
            }
            !dials(t, &digits)
                && (form != 8 || numbered)
                && if numbered {
                    t.viable(national) && national == n || model::only_reading(t, national, &n)
                } else {
                    model::only_reading(t, &digits, &n)
                }
        }
        9 => {
            let d = format!("0{n}");
            model::only_reading(t, &d, &n)
        }
        _ => true,
    };
    // Regions that share a code in generated plans may contradict each other.
    let clear = clear
        && (other.is_none()
            || w.model.parse(&w.text, hint.as_deref(), &digits) == Ok(is(t.code, source, &n)));
    if !clear {
        cx.class(format!("{name}: ambiguous"));
        return Ok(());
    }
    cx.class(name);
    cx.nontrivial(&cx.input.clone());
    same!(
        parse_in(db, hint.as_deref(), &digits),
        Ok(is(t.code, source, &n)),
        "{name}"
    );
    Ok(())
}

fn dials(t: &Terr, digits: &str) -> bool {
    model::dials_abroad(t, digits)
}

fn extension(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 5 => other, w, db);
    if w.regions.is_empty() {
        return Ok(());
    }
    let t = &w.model.terrs[g::territory(src, w)];
    let Some(n) = g::valid_nsn(src, w, t) else {
        cx.class("no valid number");
        return Ok(());
    };
    let mut text = format!("+{}{n}", t.code);
    let mut want = is(t.code, "Plus", &n);
    let hint = random_hint(src, w);
    // Regions that share a code in generated plans may contradict each other.
    if other.is_some() && w.model.parse(&w.text, None, &text) != Ok(want.clone()) {
        cx.class("ambiguous");
        return Ok(());
    }
    let mut hint = hint;
    let mut vanity = false;
    match src.below(8) {
        0 if t.id != "001" => {
            // As dialled at home, whatever that is.
            hint = Some(t.id.clone());
            text = format!("{}{n}", g::national_prefix(src, t).unwrap_or_default());
            if text.len() < 3 {
                return Ok(());
            }
            match parse_in(db, hint.as_deref(), &text) {
                Ok(n) => want = n,
                Err(_) => {
                    cx.class("not dialled");
                    return Ok(());
                }
            }
        }
        1 => {
            // In letters.
            let from = text.len() - src.range(3, n.len().max(4) as u64 - 1) as usize;
            let from = from.max(4);
            text = text
                .char_indices()
                .map(|(i, c)| match c.to_digit(10) {
                    Some(d) if i >= from && d > 1 => {
                        *src.pick(g::KEYPAD[d as usize].as_bytes()) as char
                    }
                    _ => c,
                })
                .collect();
            vanity = text.bytes().any(|b| b.is_ascii_uppercase());
            if vanity
                && (text.bytes().filter(u8::is_ascii_uppercase).count() < 3
                    || model::ends_like_extension(&w.text, &text))
            {
                cx.class("like an extension");
                return Ok(());
            }
        }
        _ => (),
    }
    let plus = text.starts_with('+');
    // Next to letters, that separator is one.
    let decorate = |src: &mut Src, s: &str| match vanity {
        true => g::decorate(src, s).replace('x', "-"),
        false => g::decorate(src, s),
    };

    match src.below(10) {
        0 if plus && !vanity => {
            // A parameter of RFC 3966, of any length, among others.
            let e = g::part_digits(src, 20);
            let v = if src.chance(1, 2) {
                format!("+{}-{n}", t.code)
            } else {
                text.clone()
            };
            let before = *src.pick(&["", ";isub=1", ";a=b;c=d", ";phone-context=+49"]);
            let after = *src.pick(&["", ";isub=1", ";a=b", ";x-y=%41"]);
            text = format!(
                "{}{v}{before};ext={e}{after}",
                src.pick(&["", "tel:", "TEL:"])
            );
            want.ext = Some(e);
            cx.class("parameter");
        }
        1 => {
            // Only the first of two.
            let e = g::ext_digits(src, 7);
            let f = g::ext_digits(src, 7);
            text = format!(
                "{} x{e}{}x{f}",
                decorate(src, &text),
                src.pick(&["/", " / ", "\\", "/  "])
            );
            want.ext = Some(e);
            cx.class("two");
        }
        2 => {
            // A number sign after it.
            let e = g::ext_digits(src, 5);
            text = format!(
                "{}{}{e}#",
                decorate(src, &text),
                src.pick(&[" ", "-", " - ", "--"])
            );
            want.ext = Some(e);
            cx.class("hash");
        }
        3 => {
            // No extension at all.
            match src.below(4) {
                0 if !vanity => text.push_str(src.pick(&[";ext=", "#"])),
                1 => text = decorate(src, &text),
                _ => {
                    text = decorate(src, &text);
                    text.push_str(
                        src.pick(&[" x", " ext", " ext.", " #", ",", " int", " anexo", "~"]),
                    );
                }
            }
            cx.class("none");
        }
        _ => {
            let mut label = g::ext_label(src);
            if vanity && label.starts_with(char::is_alphanumeric) {
                label.insert(0, ' ');
            }
            let core = label.trim_matches(|c: char| ", \u{A0}\t-:.\u{FF0E}".contains(c));
            cx.class(format!("label {core:?}"));
            let e = g::ext_digits(src, 7);
            let shown: String = match src.below(3) {
                0 => {
                    let z = *src.pick(crate::model::ZEROS);
                    e.chars().map(|c| g::write_digit(src, c, z)).collect()
                }
                _ => e.clone(),
            };
            if src.chance(1, 2) {
                text = decorate(src, &text);
            }
            let label = match src.below(3) {
                0 => label.to_uppercase(),
                1 => label
                    .chars()
                    .map(|c| {
                        if src.chance(1, 2) {
                            c.to_uppercase().next().unwrap()
                        } else {
                            c
                        }
                    })
                    .collect(),
                _ => label,
            };
            // A number sign ends what was introduced in words.
            let end = *src.pick(&["", "", "#", ".", " "]);
            let end = if label.contains('=') && end == "#" {
                ""
            } else {
                end
            };
            text = format!("{text}{label}{shown}{end}");
            if src.chance(1, 8) {
                text = format!("{}{text}", src.pick(g::BEFORE));
            }
            want.ext = Some(e);
        }
    }
    cx.input = format!("parse({hint:?}, {text:?})");
    in_plan(cx, &other);
    cx.nontrivial(&text);
    same!(parse_in(db, hint.as_deref(), &text), Ok(want), "{text:?}");
    Ok(())
}

fn letters(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 5 => other, w, db);
    if w.regions.is_empty() {
        return Ok(());
    }
    let t = &w.model.terrs[g::territory(src, w)];
    let Some(n) = g::valid_nsn(src, w, t) else {
        cx.class("no valid number");
        return Ok(());
    };
    let home = (t.id != "001").then(|| t.id.clone());
    let (hint, digits) = match home {
        Some(id) if src.chance(1, 3) => {
            let np =
                t.np.clone()
                    .filter(|_| src.chance(1, 2))
                    .unwrap_or_default();
            let s = format!("{np}{n}");
            if dials(t, &s) {
                cx.class("abroad");
                return Ok(());
            }
            (Some(id), s)
        }
        _ => (random_hint(src, w), format!("+{}{n}", t.code)),
    };
    let plus = digits.starts_with('+') as usize;
    let total = digits.len() - plus;
    let first = src.range(3, total.max(4) as u64 - 1) as usize + plus;

    let mut text = String::new();
    let mut plain = String::new();
    let mut count = 0;
    let stray = src.chance(1, 4);
    for (i, c) in digits.chars().enumerate() {
        let keys = c.to_digit(10).map(|d| g::KEYPAD[d as usize]).unwrap_or("");
        if i >= first && src.chance(1, 3) {
            let p = *src.pick(&['-', ' ', '.', '(', ')', '/']);
            text.push(p);
            plain.push(p);
        }
        if stray {
            text.push(c);
            plain.push(c);
            if i >= first && count < 2 && src.chance(1, 3) {
                count += 1;
                let l = (b'a' + src.below(26) as u8) as char;
                text.push(if src.chance(1, 2) {
                    l.to_ascii_uppercase()
                } else {
                    l
                });
            }
        } else if i >= first && !keys.is_empty() && src.chance(7, 8) {
            let l = *src.pick(keys.as_bytes()) as char;
            text.push(if src.chance(1, 2) {
                l.to_ascii_lowercase()
            } else {
                l
            });
            plain.push(c);
            count += 1;
        } else {
            text.push(c);
            plain.push(c);
        }
    }
    if count == 0 || (!stray && count < 3) {
        cx.class("no letters");
        return Ok(());
    }
    if src.chance(1, 6) {
        // The other notations may come with letters.
        let z = *src.pick(model::ZEROS);
        text = text
            .chars()
            .map(|c| match c {
                '0'..='9' if src.chance(1, 2) => g::write_digit(src, c, z),
                c => c,
            })
            .collect();
    }
    if src.chance(1, 6)
        && let Some(rest) = text.strip_prefix('+')
    {
        let plus = *src.pick(&["\u{FF0B}", "++", "+\u{FF0B}", "+(", "+ ", "\u{FF0B}-"]);
        text = format!("{plus}{rest}");
    }
    if src.chance(1, 6) {
        text = format!("{}{text}", g::before(src));
    }
    let (i, c) = text
        .char_indices()
        .rfind(|(_, c)| c.is_alphanumeric())
        .unwrap();
    let cut = i + c.len_utf8();
    if src.chance(1, 6) {
        text.push_str(&g::after(src));
    }
    cx.input = format!("{hint:?}: {text:?} / {plain:?}");
    in_plan(cx, &other);
    // The end of a word may be how an extension is introduced.
    if model::ends_like_extension(&w.text, &text[..cut])
        || text.contains("/x")
        || text.contains("/ x")
    {
        cx.class("like an extension");
        return Ok(());
    }
    cx.class(if stray { "stray letters" } else { "vanity" });
    cx.nontrivial(&cx.input.clone());
    let want = parse_in(db, hint.as_deref(), &plain);
    check!(want.is_ok(), "{plain:?} does not parse: {want:?}");
    same!(
        parse_in(db, hint.as_deref(), &text),
        want,
        "{text:?} against {plain:?}"
    );
    Ok(())
}

fn carrier(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 5 => other, w, db);
    if w.regions.is_empty() {
        return Ok(());
    }
    let t = if !w.capturing.is_empty() && src.chance(3, 4) {
        &w.model.terrs[w.capturing[src.strat(w.capturing.len() as u64) as usize]]
    } else {
        g::region(src, w)
    };
    if t.id == "001" {
        return Ok(());
    }
    let n = match src.below(4) {
        0 => g::any_nsn(src, t),
        _ => g::nsn(src, t),
    };
    let prefix = match src.below(4) {
        0 => t.np.clone().unwrap_or_default(),
        _ => g::national_prefix(src, t).unwrap_or_default(),
    };
    let digits = if src.chance(1, 3) && t.transform.is_some() {
        // A pattern with a transformation may contain the number, or part.
        match src.below(3) {
            0 => prefix.clone(),
            1 => {
                let k = src.range(1, 8) as usize;
                format!("{prefix}{}", &n[k.min(n.len())..])
            }
            _ => {
                let k = src.range(3, 8) as usize;
                format!("{prefix}{}", src.digits(k))
            }
        }
    } else {
        format!("{prefix}{n}")
    };
    if digits.len() < 3 || dials(t, &digits) {
        cx.class("abroad");
        return Ok(());
    }
    if digits.starts_with(&t.code.to_string()) && !t.viable(&digits) {
        cx.class("country code");
        return Ok(());
    }
    let text = if src.chance(1, 3) {
        g::decorate(src, &digits)
    } else {
        digits.clone()
    };
    cx.input = format!("{}: {digits:?} {text:?}", t.id);
    in_plan(cx, &other);

    let (national, carrier) = model::strip_national(t, &digits);
    let got = parse_in(db, Some(&t.id), &text);

    // A number fine as dialled stays so, or becomes another fine one.
    if let Ok(got) = &got
        && t.viable(&digits)
    {
        check!(
            t.viable(&got.national),
            "{digits} was fine, {} is not",
            got.national
        );
    }
    // Too little of a number left is no number of the region: nothing is lost.
    let (national, carrier) = if model::too_short(t, &national) {
        (digits.clone(), None)
    } else {
        (national, carrier)
    };
    if national.len() > 17 || national.len() < 2 || national.parse::<u64>().unwrap() >> 56 != 0 {
        cx.class("length");
        return Ok(());
    }
    cx.class(format!(
        "{}{}",
        if carrier.is_some() { "carrier " } else { "" },
        if national == digits {
            "as is"
        } else if digits.ends_with(&national) {
            "stripped"
        } else {
            "transformed"
        }
    ));
    if national != digits {
        cx.nontrivial(&format!("{} {digits}", t.id));
    }
    let mut want = is(t.code, "Default", &national);
    want.carrier = carrier;
    same!(got, Ok(want), "{digits} in {}", t.id);
    Ok(())
}

fn rejects(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 5 => other, w, db);
    if w.regions.is_empty() {
        return Ok(());
    }
    let t = &w.model.terrs[g::territory(src, w)];
    let id = (t.id != "001").then(|| t.id.clone());
    let cc = t.code;
    let (name, hint, text, want): (&str, Option<String>, String, Option<&str>) = match src.below(13)
    {
        0 => {
            // Too few digits for a number.
            let d = src.below(3) as usize;
            let mut s = String::new();
            for _ in 0..src.below(8) {
                s.push_str(src.pick(&[" ", "-", "abc", "X", "()", ".", "call", "é", "/"]));
            }
            let digits = src.digits(d);
            let s = match d {
                2 => format!("{}-{}", &digits[..1], &digits[1..]),
                _ => format!("{s}{digits}"),
            };
            ("few digits", random_hint(src, w), s, Some("NoNumber"))
        }
        1 => {
            // Letters too early, or characters of no number.
            let bad = *src.pick(&[
                "@",
                "=",
                "%",
                "_",
                "$",
                "&",
                "?",
                "!",
                "'",
                "\u{1d7ce}",
                "é",
                "½",
                "{",
            ]);
            let n = g::nsn(src, t);
            let end = src.chance(1, 3);
            let bad = match src.below(3) {
                0 if !end => bad.to_string(),
                _ => g::foreign(src, end).to_string(),
            };
            let k = src.range(1, n.len().max(2) as u64 - 1) as usize;
            let k = if end { n.len() } else { k.min(n.len()) };
            let s = format!("+{cc}{}{bad}{}", &n[..k], &n[k..]);
            ("bad character", random_hint(src, w), s, Some("NoNumber"))
        }
        2 => {
            // A number for no region.
            let mut n = g::nsn(src, t);
            if src.chance(1, 2) {
                n = format!("{}{n}", g::national_prefix(src, t).unwrap_or_default());
            }
            if n.starts_with("00") || n.len() < 2 {
                n = format!("1{n}9");
            }
            (
                "no region",
                None,
                g::decorate(src, &n),
                Some("InvalidCountryCode"),
            )
        }
        3 => {
            // No such country code.
            let mut c = src.range(2, 999).to_string();
            let known = |c: &str| {
                (1..=c.len()).any(|l| w.model.by_code.contains_key(&c[..l].parse().unwrap()))
            };
            let mut tries = 0;
            while known(&c) || c.len() < 3 {
                tries += 1;
                if tries > 50 {
                    c = "999".into();
                    break;
                }
                c = src.range(200, 999).to_string();
            }
            if known(&c) {
                return Ok(());
            }
            let n = src.range(3, 12) as usize;
            let s = format!("+{c}{}", src.digits(n));
            (
                "unknown code",
                random_hint(src, w),
                g::decorate(src, &s),
                Some("InvalidCountryCode"),
            )
        }
        4 => {
            // No country code starts with a zero.
            let n = g::nsn(src, t);
            let s = if src.chance(1, 2) {
                format!("+0{cc}{n}")
            } else {
                format!("tel:+0{cc}-{n}")
            };
            if s.starts_with("+00") {
                return Ok(());
            }
            let hint = random_hint(src, w);
            if hint
                .as_deref()
                .and_then(|h| w.model.terr(h))
                .is_some_and(|h| dials(h, &s[1..]))
            {
                return Ok(());
            }
            ("zero code", hint, s, Some("InvalidCountryCode"))
        }
        5 => {
            // Too many digits, whatever is stripped.
            let n = src.range(30, 60) as usize;
            let mut d = src.digits(n);
            d.replace_range(0..1, "2");
            (
                "very long",
                random_hint(src, w),
                format!("+{cc}{d}"),
                Some("TooLong"),
            )
        }
        6 => {
            // The longest national numbers.
            let n = src.range(15, 20) as usize;
            let mut d = src.digits(n);
            d.replace_range(0..1, &src.range(2, 9).to_string());
            let takes = |t: &Terr| {
                t.viable(&d)
                    || t.np_parse.is_some()
                    || t.np.as_ref().is_some_and(|p| d.starts_with(p.as_str()))
            };
            if takes(t)
                || other.is_some()
                    && w.model.by_code[&cc]
                        .iter()
                        .any(|&i| takes(&w.model.terrs[i]))
            {
                return Ok(());
            }
            let fits = n <= 17 && d.parse::<u64>().unwrap() >> 56 == 0;
            (
                "length limit",
                random_hint(src, w),
                format!("+{cc}{d}"),
                if fits { None } else { Some("TooLong") },
            )
        }
        7 => {
            // Hardly anything after the country code.
            let k = src.below(3) as usize;
            let mut d = src.digits(k);
            if k > 0 {
                d.replace_range(0..1, "9");
            }
            let all = cc.to_string().len() + k;
            let want = if all <= 2 || k < 2 {
                Some("TooShortNsn")
            } else {
                None
            };
            let want = if all <= 2 && cc < 100 && k + cc.to_string().len() < 3 {
                Some("NoNumber")
            } else {
                want
            };
            ("short", random_hint(src, w), format!("+{cc}{d}"), want)
        }
        8 => {
            // Hardly anything after the IDD.
            let (hint, i, re) = if src.chance(1, 6) {
                (None, Some("00".to_string()), None)
            } else {
                let r = g::any_region(src, w);
                (Some(r.id.clone()), g::idd(src, r), r.idd.as_ref())
            };
            let Some(i) = i else { return Ok(()) };
            let k = src.below(3) as usize;
            let s = format!("{i}{}", src.digits(k));
            let end = re.map_or(Some(2), |re| re.find(&s).map(|m| m.end()));
            if s.len() < 2 || end != Some(i.len()) || s[i.len()..].starts_with('0') {
                return Ok(());
            }
            // Two digits are a number only side by side.
            let s = if s.len() < 3 { s } else { g::decorate(src, &s) };
            ("short after IDD", hint, s, Some("TooShortAfterIdd"))
        }
        9 => {
            // Two digits, for a region.
            let Some(id) = id else { return Ok(()) };
            let d = src.digits(2);
            if dials(t, &d) || d.starts_with(&cc.to_string()) {
                return Ok(());
            }
            ("two digits", Some(id), d, None)
        }
        10 => {
            // The longest national numbers, with their prefix.
            let (Some(id), Some(np)) = (id, t.np.as_deref()) else {
                return Ok(());
            };
            let n = src.range(15, 20) as usize;
            let mut d = src.digits(n);
            d.replace_range(0..1, &src.range(1, 9).to_string());
            let s = format!("{np}{d}");
            let alone = t
                .np_parse
                .as_ref()
                .and_then(|re| re.captures(&s))
                .is_some_and(|c| {
                    c.get(0).unwrap().range() == (0..np.len())
                        && c.iter().skip(1).flatten().next().is_none()
                });
            let abroad = |s: &str| {
                s.starts_with(&cc.to_string())
                    || t.idd
                        .as_ref()
                        .is_some_and(|re| re.find(s).is_some_and(|m| m.start() == 0))
            };
            if !alone || d.starts_with(np) || abroad(&s) || t.viable(&s) || t.viable(&d) {
                return Ok(());
            }
            let fits = n <= 17 && d.parse::<u64>().unwrap() >> 56 == 0;
            let want = if fits { None } else { Some("TooLong") };
            (
                "length limit with prefix",
                Some(id),
                g::decorate(src, &s),
                want,
            )
        }
        11 => {
            // A number for a region that the database does not have.
            let all = world::world();
            let h = &g::any_region(src, &all).id;
            if w.model.terr(h).is_some() {
                return Ok(());
            }
            let mut n = g::nsn(src, t);
            if src.chance(1, 2) {
                n = format!("{cc}{n}");
            }
            while n.len() < 3 {
                n.push('1');
            }
            (
                "region not in the database",
                Some(h.clone()),
                g::decorate(src, &n),
                Some("InvalidCountryCode"),
            )
        }
        _ => {
            let s = match src.below(4) {
                0 => String::new(),
                1 => g::unicode(src, 12)
                    .chars()
                    .filter(|c| !c.is_numeric() && *c != '+')
                    .collect(),
                2 => "+".repeat(src.range(1, 4) as usize),
                _ => ["abcdef", "tel:", "x", "--", "()", ";phone-context=+44"]
                    [src.below(6) as usize]
                    .into(),
            };
            if s.chars().filter(|c| c.is_numeric()).count() > 2 {
                return Ok(());
            }
            ("no digits", random_hint(src, w), s, Some("NoNumber"))
        }
    };
    cx.class(name);
    cx.input = format!("{name}: parse({hint:?}, {text:?})");
    in_plan(cx, &other);
    cx.nontrivial(&cx.input.clone());
    same!(parse_in(db, hint.as_deref(), &text).err(), want, "{name}");
    Ok(())
}
