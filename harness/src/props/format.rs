//! Writing numbers: C17 to C19.

use crate::engine::{Cx, Outcome, Property};
use crate::generate as g;
use crate::model::{self, Mode};
use crate::props::plan::{in_plan, some_number};
use crate::src::Src;
use crate::world::{self, MODES};
use crate::{check, plans, same};
use phonenumber::metadata::DATABASE;
use std::fmt::Write;

const M: &[&str] = &[
    "the embedded metadata is /repo/assets/PhoneNumberMetadata.xml, read by this harness itself",
    "the regex crate matches as specified",
];

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            rule: "a number of each region in turn, valid or not, with or without extension and \
                   carrier; non-trivial when its country code is known, distinct by its parts",
            quick: 1_500_000,
            assumptions: &[],
            run: shape,
        },
        Property {
            id: "C18",
            rule: "as C17; non-trivial when a format of the metadata applies, distinct by country \
                   code, digits and carrier",
            quick: 1_200_000,
            assumptions: M,
            run: rules,
        },
        Property {
            id: "C19",
            rule: "as C17 and a format of any region, with the settings of the formatter given in \
                   any order; non-trivial when the format applies to the number, distinct by both",
            quick: 1_500_000,
            assumptions: M,
            run: custom,
        },
    ]
}

/// What a formatter writes, or that it fails.
pub fn show(d: impl std::fmt::Display) -> Option<String> {
    let mut s = String::new();
    write!(s, "{d}").ok().map(|_| s)
}

fn shape(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 4 => other, w, db);
    let Some((num, number)) = some_number(src, cx, w, db, false) else {
        cx.class("none");
        return Ok(());
    };
    if !w.model.by_code.contains_key(&num.code) {
        cx.class("unknown code");
        for m in MODES {
            same!(
                show(number.format_with(db).mode(world::mode(m))),
                None,
                "{m:?}"
            );
        }
        return Ok(());
    }
    cx.class(match (&num.ext, &num.carrier) {
        (None, None) => "plain",
        (Some(_), None) => "extension",
        (None, Some(_)) => "carrier",
        _ => "both",
    });
    cx.nontrivial(&cx.input.clone());
    in_plan(cx, &other);
    // Unless the format itself has digits or another order.
    let main = &w.model.terrs[w.model.by_code[&num.code][0]];
    let plain = [Mode::National, Mode::International]
        .iter()
        .filter_map(|m| w.model.choose_format(main, *m, &num.national))
        .all(|f| {
            let groups: String = f
                .format
                .chars()
                .filter(|c| c.is_ascii_alphanumeric() || *c == '$')
                .collect();
            "$1$2$3$4$5$6".starts_with(&groups)
        });
    // All groups in their order, whatever is between them.
    let ordered = [Mode::National, Mode::International]
        .iter()
        .filter_map(|m| w.model.choose_format(main, *m, &num.national))
        .all(|f| {
            let b = f.format.as_bytes();
            (0..b.len().saturating_sub(1))
                .filter(|&i| b[i] == b'$')
                .map(|i| usize::from(b[i + 1].wrapping_sub(b'0')))
                .eq(1..f.re.captures_len())
        });
    let shows = |written: &str| {
        let mut left = written.chars();
        num.national.chars().all(|d| left.any(|c| c == d))
    };
    let text = |m| show(number.format_with(db).mode(world::mode(m)));
    let Some(e164) = text(Mode::E164) else {
        return crate::engine::fail("E.164: cannot be written");
    };
    same!(e164, format!("+{}{}", num.code, num.national), "E.164");
    if other.is_none() {
        same!(number.to_string(), e164, "to_string");
        same!(
            show(number.format()),
            Some(e164.clone()),
            "format() without a mode"
        );
        for m in MODES {
            same!(
                show(number.format().mode(world::mode(m))),
                text(m),
                "{m:?} with the database named"
            );
        }
    }

    let Some(rfc) = text(Mode::Rfc3966) else {
        return crate::engine::fail("RFC 3966: cannot be written");
    };
    let body = rfc.strip_prefix(&format!("tel:+{}-", num.code));
    check!(body.is_some(), "RFC 3966: {rfc:?}");
    let body = body.unwrap();
    let (digits, ext) = match body.split_once(";ext=") {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (body, None),
    };
    same!(ext, num.ext, "extension of {rfc:?}");
    check!(
        digits.bytes().all(|b| b.is_ascii_digit() || b == b'-')
            && !digits.contains("--")
            && !digits.starts_with('-')
            && !digits.ends_with('-'),
        "RFC 3966: {rfc:?}"
    );
    if plain {
        same!(digits.replace('-', ""), num.national, "digits of {rfc:?}");
    }

    let Some(intl) = text(Mode::International) else {
        return crate::engine::fail("international: cannot be written");
    };
    let rest = intl.strip_prefix(&format!("+{} ", num.code));
    check!(rest.is_some(), "international: {intl:?}");
    let all = format!("{}{}", num.national, num.ext.as_deref().unwrap_or(""));
    if plain {
        same!(
            model::normalize(rest.unwrap_or(""), false),
            all,
            "digits of {intl:?}"
        );
    }

    let Some(national) = text(Mode::National) else {
        return crate::engine::fail("national: cannot be written");
    };
    check!(!national.contains('+'), "national: {national:?}");
    if ordered {
        let end = num.ext.as_ref().map_or(0, |e| e.len());
        let cut = |s: &str| s[..s.len().saturating_sub(end)].to_string();
        for s in [digits, &cut(rest.unwrap_or("")), &cut(&national)] {
            check!(shows(s), "{s:?} does not show all digits");
        }
    }
    for s in [&intl, &national, &rfc] {
        check!(!s.contains('$'), "a group is not filled in: {s:?}");
    }
    match &num.ext {
        Some(e) => check!(
            national.ends_with(e.as_str()) && intl.ends_with(e.as_str()),
            "the extension is not at the end: {national:?}, {intl:?}"
        ),
        None => check!(
            !national.contains("ext"),
            "an extension out of nowhere: {national:?}"
        ),
    }
    Ok(())
}

fn rules(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 4 => other, w, db);
    let Some((num, number)) = some_number(src, cx, w, db, false) else {
        cx.class("none");
        return Ok(());
    };
    if let Some(&i) = w.model.by_code.get(&num.code).and_then(|l| l.first()) {
        match w
            .model
            .choose_format(&w.model.terrs[i], Mode::National, &num.national)
        {
            Some(f) => {
                cx.class(if num.carrier.is_some() && f.carrier_rule.is_some() {
                    "carrier rule"
                } else if f.rule.is_some() {
                    "prefix rule"
                } else {
                    "format"
                });
                cx.nontrivial(&cx.input.clone());
            }
            None => cx.class("no format"),
        }
    }
    in_plan(cx, &other);
    for m in MODES {
        let want = w.model.format(m, &num);
        if other.is_none() {
            same!(show(number.format().mode(world::mode(m))), want, "{m:?}");
        }
        same!(
            show(number.format_with(db).mode(world::mode(m))),
            want,
            "{m:?} with the database"
        );
    }
    Ok(())
}

fn custom(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 4 => other, w, db);
    let Some((num, number)) = some_number(src, cx, w, db, false) else {
        cx.class("none");
        return Ok(());
    };
    let Some(list) = w.model.by_code.get(&num.code) else {
        cx.class("unknown code");
        return Ok(());
    };
    let main = &w.model.terrs[list[0]];

    // A format of the same region, or of another one.
    let all = crate::world::world();
    let main_or = src.chance(1, 2);
    let (from, meta) = if main_or && main.id != "001" {
        (main, db.by_id(&main.id))
    } else {
        let t = g::any_region(src, &all);
        (t, DATABASE.by_id(&t.id))
    };
    let Some(meta) = meta else {
        return crate::engine::fail(format!("{} is missing", from.id));
    };
    if from.formats.is_empty() {
        cx.class("no formats");
        return Ok(());
    }
    let intl = src.chance(1, 3) && !from.intl_formats.is_empty();
    let (a, b) = if intl {
        (&from.intl_formats, meta.international_formats())
    } else {
        (&from.formats, meta.formats())
    };
    same!(a.len(), b.len(), "formats of {}", from.id);
    let k = src.below(a.len() as u64) as usize;
    let (fmt, mut format) = (&a[k], &b[k]);
    let copy;
    if src.chance(1, 8) {
        copy = format.clone();
        format = &copy;
    }
    cx.input = format!(
        "{} with {:?} -> {:?} of {}",
        num.show(),
        fmt.pattern,
        fmt.format,
        from.id
    );

    // The settings in any order and number, as long as the last ones are
    // these.
    let m = *src.pick(&MODES);
    let mut f = match src.below(4) {
        0 => number.format(),
        1 => number.format_with(&DATABASE),
        2 => phonenumber::format_with(db, &number),
        _ => number.format_with(db),
    };
    let mut names = Vec::new();
    let mut last = [false; 3];
    let mut steps: Vec<u64> = (0..src.below(4)).map(|_| 3 + src.below(3)).collect();
    for s in [0, 1, 2] {
        let at = src.below(steps.len() as u64 + 1) as usize;
        steps.insert(at, s);
    }
    for s in steps {
        let right = s < 3;
        let s = (s % 3) as usize;
        // What is set last stays.
        let right = right || last[s];
        last[s] |= right;
        f = match (s, right) {
            (0, true) => f.mode(world::mode(m)),
            (0, false) => f.mode(world::mode(*src.pick(&MODES))),
            (1, true) => f.with(format),
            (1, false) => f.with(&b[src.below(b.len() as u64) as usize]),
            (_, true) => f.database(db),
            (_, false) => f.database(&DATABASE),
        };
        names.push(match (s, right) {
            (0, true) => "mode",
            (0, false) => "another mode",
            (1, true) => "format",
            (1, false) => "another format",
            (_, true) => "database",
            (_, false) => "another database",
        });
    }
    let got = show(f);
    cx.input.push_str(&format!(" set by {names:?}"));
    in_plan(cx, &other);
    if fmt.re.is_match(&num.national) {
        cx.class(format!("{m:?}"));
        cx.nontrivial(&cx.input.clone());
        let want = model::format_by(main, Some(fmt), m, &num);
        same!(got, Some(want), "{m:?} after {names:?}");
    } else if !format.pattern().is_match(&num.national) {
        cx.class("does not apply");
        let want = model::format_by(main, None, m, &num);
        same!(got, Some(want), "{m:?} after {names:?}");
    } else {
        cx.class("applies to a part");
    }
    Ok(())
}
