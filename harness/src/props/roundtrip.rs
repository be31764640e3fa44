//! What is written can be read back: C04 and C05.

use crate::engine::{Cx, Outcome, Property};
use crate::generate as g;
use crate::model::{self, Mode, Num};
use crate::props::parsing::parse;
use crate::src::Src;
use crate::world::{self, outcome, world};
use crate::{check, same};

const M: &[&str] =
    &["the embedded metadata is /repo/assets/PhoneNumberMetadata.xml, read by this harness itself"];

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C04",
            rule: "a valid number of each region in turn, with or without an extension, written in \
                   E.164, international and RFC 3966 form and read under several regions; every \
                   valid number is non-trivial, distinct by number, extension and form",
            quick: 700_000,
            assumptions: M,
            run: international,
        },
        Property {
            id: "C05",
            rule: "a valid number of each region in turn, with or without an extension or carrier, \
                   written in national form and read in its region; non-trivial unless the plan \
                   gives the digits another reading, distinct by text and region",
            quick: 1_200_000,
            assumptions: M,
            run: national,
        },
    ]
}

fn international(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let t = &w.model.terrs[g::territory(src, &w)];
    let Some(n) = g::valid_nsn(src, &w, t) else {
        cx.class("no valid number");
        return Ok(());
    };
    let mut num = Num {
        code: t.code,
        source: *src.pick(&["Plus", "Idd", "Number", "Default"]),
        national: n.clone(),
        ext: src.chance(1, 3).then(|| g::ext_digits(src, 7)),
        carrier: src.chance(1, 8).then(|| g::ext_digits(src, 4)),
    };
    let number = if src.chance(1, 2) {
        let Some(number) = world::build(&num) else {
            cx.class("not built");
            return Ok(());
        };
        number
    } else {
        // One that was parsed.
        num.carrier = None;
        let x = num
            .ext
            .as_ref()
            .map(|e| format!(" x{e}"))
            .unwrap_or_default();
        match phonenumber::parse(None, format!("+{}{n}{x}", t.code)) {
            Ok(n) => n,
            Err(e) => return crate::engine::fail(format!("+{}{n}{x} is valid but: {e}", t.code)),
        }
    };
    cx.class(format!("+{}", t.code));
    cx.input = num.show();
    cx.nontrivial(&cx.input.clone());

    for mode in [Mode::E164, Mode::International, Mode::Rfc3966] {
        let text = number.format().mode(world::mode(mode)).to_string();
        let mut hints = vec![None, Some(g::any_region(src, &w).id.clone())];
        if t.id != "001" {
            hints.push(Some(t.id.clone()));
        }
        for hint in hints {
            let back = phonenumber::parse(hint.as_deref().and_then(world::id), &text);
            let back = match back {
                Ok(b) => b,
                Err(e) => {
                    return crate::engine::fail(format!("{text:?} read in {hint:?}: {e}"));
                }
            };
            let b = world::to_num(&back);
            let want = Num {
                source: "Plus",
                carrier: None,
                ext: num.ext.clone().filter(|_| mode != Mode::E164),
                ..num.clone()
            };
            same!(b, want, "{text:?} read in {hint:?}");
            if want.ext == num.ext && num.carrier.is_none() {
                check!(
                    back == number,
                    "{text:?} read in {hint:?} does not compare equal"
                );
            }
            // And it is written the same way again.
            same!(
                back.format().mode(world::mode(mode)).to_string(),
                text,
                "written again"
            );
            check!(
                back.is_valid(),
                "{text:?} read in {hint:?} is not valid any more"
            );
        }
    }
    Ok(())
}

fn national(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let t = &w.model.terrs[g::territory(src, &w)];
    if t.id == "001" {
        cx.class("not a region");
        return Ok(());
    }
    let Some(n) = g::valid_nsn(src, &w, t) else {
        cx.class("no valid number");
        return Ok(());
    };
    let mut num = Num {
        code: t.code,
        source: "Default",
        national: n.clone(),
        ext: src.chance(1, 3).then(|| g::ext_digits(src, 7)),
        carrier: None,
    };
    // A carrier is what dialling the number with one leads to.
    if w.capturing.iter().any(|&i| w.model.terrs[i].id == t.id) && src.chance(1, 2) {
        let p = g::national_prefix(src, t).unwrap_or_default();
        let s = format!("{p}{n}");
        if !model::dials_abroad(t, &s)
            && let Ok(m) = parse(Some(&t.id), &s)
            && m.national == n
            && m.source == "Default"
        {
            num.carrier = m.carrier;
        }
    }
    // The digits shown, without the extension.
    let (Some(number), Some(bare)) = (
        world::build(&num),
        world::build(&Num {
            ext: None,
            ..num.clone()
        }),
    ) else {
        cx.class("not built");
        return Ok(());
    };
    let text = number
        .format()
        .mode(phonenumber::Mode::National)
        .to_string();
    cx.input = format!("{}: {} as {text:?}", t.id, num.show());

    let main = &w.model.terrs[w.model.by_code[&t.code][0]];
    let fmt = w.model.choose_format(main, Mode::National, &n);
    let shown = num.carrier.is_some() && fmt.is_some_and(|f| f.carrier_rule.is_some());

    let digits = model::normalize(
        &bare.format().mode(phonenumber::Mode::National).to_string(),
        false,
    );
    if model::dials_abroad(t, &digits) {
        cx.class("reads as a call abroad");
        return Ok(());
    }
    let mut source = "Default";
    let clear = match digits.strip_prefix(&t.code.to_string()) {
        Some(rest) if !t.viable(&digits) => {
            source = "Number";
            t.viable(rest) && rest == n
        }
        _ => model::only_reading(t, &digits, &n),
    };
    if !clear {
        cx.class("another reading");
        return Ok(());
    }
    cx.class(if shown {
        "with carrier"
    } else if digits != n {
        "with prefix"
    } else {
        "plain"
    });
    cx.nontrivial(&cx.input.clone());

    let back = phonenumber::parse(world::id(&t.id), &text);
    let want = Num {
        source,
        carrier: num.carrier.clone().filter(|_| shown),
        ..num.clone()
    };
    same!(
        outcome(&back),
        Ok(want.clone()),
        "{text:?} read in {}",
        t.id
    );
    if want.carrier == num.carrier {
        check!(back.unwrap() == number, "{text:?} does not compare equal");
    }
    Ok(())
}
