//! The numbering plan: C14 to C16.

use crate::engine::{Cx, Outcome, Property};
use crate::generate as g;
use crate::model::Num;
use crate::props::metadata::Other;
use crate::src::Src;
use crate::world::{self, World};
use crate::{check, plans, same};
use phonenumber::PhoneNumber;
use phonenumber::metadata::Database;
use std::sync::Arc;

const M: &[&str] = &[
    "the embedded metadata is /repo/assets/PhoneNumberMetadata.xml, read by this harness itself",
    "the regex crate matches as specified",
];

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C14",
            rule: "a number of each region in turn out of its patterns, near them, or of random \
                   digits; non-trivial when some region has its country code and length, \
                   distinct by country code and digits",
            quick: 3_000_000,
            assumptions: M,
            run: validity,
        },
        Property {
            id: "C15",
            rule: "as C14; non-trivial when the plan gives the number a type, distinct by country \
                   code and digits",
            quick: 3_000_000,
            assumptions: M,
            run: kind,
        },
        Property {
            id: "C16",
            rule: "as C14, shared country codes every other time; non-trivial when the code is \
                   shared, distinct by country code and digits",
            quick: 3_000_000,
            assumptions: M,
            run: region,
        },
    ]
}

/// Some number, parsed or built, whether valid or not.
pub fn some_number(
    src: &mut Src,
    cx: &mut Cx,
    w: &World,
    db: &Database,
    shared: bool,
) -> Option<(Num, PhoneNumber)> {
    let i = if shared && !w.shared.is_empty() && src.chance(1, 2) {
        w.shared[src.strat(w.shared.len() as u64) as usize]
    } else {
        g::territory(src, w)
    };
    let t = &w.model.terrs[i];
    let national = g::any_nsn(src, t);
    let code = if src.chance(1, 64) {
        src.range(0, 1100) as u16
    } else {
        t.code
    };
    let mut num = Num {
        code,
        source: *src.pick(&["Plus", "Idd", "Number", "Default"]),
        national,
        ext: src.chance(1, 4).then(|| g::part_digits(src, 9)),
        carrier: src.chance(1, 6).then(|| g::part_digits(src, 4)),
    };
    let number = if src.chance(1, 4) {
        // As it is parsed, which may not be as it was written.
        let n = phonenumber::parse_with(db, None, format!("+{code}{}", num.national)).ok()?;
        num = world::to_num(&n);
        n
    } else {
        if num.national.len() > 17 {
            num.national.truncate(17);
        }
        if num.national.parse::<u64>().unwrap() >> 56 != 0 {
            return None;
        }
        world::build(&num)?
    };
    cx.input = num.show();
    Some((num, number))
}

/// Say which plans a number is judged by, where they are not the real ones.
pub fn in_plan(cx: &mut Cx, other: &Option<Arc<Other>>) {
    if let Some(o) = other {
        cx.class("generated plans");
        cx.input.push_str(&format!(" in {}", o.name));
        cx.key = cx.key.map(|k| k ^ crate::src::hash_str(&o.name));
    }
}

fn validity(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 4 => other, w, db);
    let Some((num, number)) = some_number(src, cx, w, db, false) else {
        cx.class("none");
        return Ok(());
    };
    let want = w.model.valid(num.code, &num.national);
    cx.class(if want { "valid" } else { "invalid" });
    let near = w.model.by_code.get(&num.code).is_some_and(|l| {
        l.iter().any(|&i| {
            w.model.terrs[i]
                .general()
                .lengths
                .contains(&(num.national.len() as u16))
        })
    });
    if near {
        cx.nontrivial(&format!("{} {}", num.code, num.national));
    }
    in_plan(cx, &other);
    if other.is_none() {
        same!(number.is_valid(), want, "is_valid");
        same!(
            phonenumber::is_valid(&number),
            want,
            "phonenumber::is_valid"
        );
    }
    same!(number.is_valid_with(db), want, "is_valid_with");
    same!(
        phonenumber::is_valid_with(db, &number),
        want,
        "phonenumber::is_valid_with"
    );
    let kind = number.number_type_with(db);
    check!(
        want == (kind != phonenumber::Type::Unknown),
        "valid and of no type, or the reverse: {kind:?}"
    );
    Ok(())
}

fn kind(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 4 => other, w, db);
    let Some((num, number)) = some_number(src, cx, w, db, false) else {
        cx.class("none");
        return Ok(());
    };
    let want = w.model.classify(num.code, &num.national);
    cx.class(want);
    if want != "Unknown" {
        cx.nontrivial(&format!("{} {}", num.code, num.national));
    }
    in_plan(cx, &other);
    if other.is_none() {
        same!(world::type_name(number.number_type()), want, "number_type");
    }
    let kind = number.number_type_with(db);
    same!(world::type_name(kind), want, "number_type_with");

    // And it says so for a reason: the description of that type matches.
    if let Some(m) = number.metadata(db)
        && want != "Unknown"
    {
        let d = m.descriptors();
        let s = &num.national;
        check!(
            d.general().is_match(s),
            "the general description does not match"
        );
        check!(
            d.get(kind).is_some_and(|d| d.is_match(s)),
            "the description of {want} does not match"
        );
    }
    Ok(())
}

fn region(src: &mut Src, cx: &mut Cx) -> Outcome {
    plans!(src, 1, 4 => other, w, db);
    let Some((num, number)) = some_number(src, cx, w, db, true) else {
        cx.class("none");
        return Ok(());
    };
    let want = w.model.region(num.code, &num.national);
    let id = want.map(|t| t.id.clone());
    if w.model.by_code.get(&num.code).is_some_and(|l| l.len() > 1) {
        cx.class(format!("{}: {}", num.code, id.as_deref().unwrap_or("none")));
        cx.nontrivial(&format!("{} {}", num.code, num.national));
    } else {
        cx.class("single region");
    }
    in_plan(cx, &other);
    let got = number.metadata(db);
    same!(got.map(|m| m.id().to_string()), id, "region");
    if let Some(m) = got {
        same!(m.country_code(), num.code, "country code of the region");
        // The plan of a global service is that of its code.
        same!(
            m.descriptors().general().example().map(String::from),
            want.unwrap().general().example.clone(),
            "region's example"
        );
    }
    same!(number.code().value(), num.code, "code");
    if other.is_some() {
        return Ok(());
    }
    same!(number.country().code(), num.code, "country code");
    match id.as_deref() {
        Some("001") => (),
        id => {
            let got = number.country().id();
            check!(got.is_ok(), "country().id(): {got:?}");
            same!(
                got.unwrap().map(|i| i.as_ref().to_string()),
                id.map(String::from),
                "country().id()"
            );
        }
    }
    Ok(())
}
