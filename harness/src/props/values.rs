//! Numbers and their parts as values: C20 to C22.

use crate::engine::{Cx, Outcome, Property};
use crate::generate as g;
use crate::model::Num;
use crate::props::plan::some_number;
use crate::src::Src;
use crate::world::{self, world};
use crate::{check, same};
use phonenumber::country::{Code, Id, Source};
use phonenumber::metadata::DATABASE;
use phonenumber::{Carrier, Extension, NationalNumber, PhoneNumber, Type, Validation};
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "two numbers, the second the first with some of its parts changed; non-trivial \
                   when at least one part but not all differ, or only the source, distinct by pair",
            quick: 1_500_000,
            assumptions: &[],
            run: equality,
        },
        Property {
            id: "C21",
            rule: "a number, parsed or built, stored and read back in JSON and in a binary format; \
                   non-trivial for all, distinct by its parts",
            quick: 1_000_000,
            assumptions: &["serde_json and postcard store what serde hands them"],
            run: stored,
        },
        Property {
            id: "C22",
            rule: "a value and zeros of a national number, digits, an extension, a carrier, a \
                   country ID, a validation; non-trivial for all, distinct by input",
            quick: 3_000_000,
            assumptions: &[],
            run: parts,
        },
    ]
}

fn hash(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Another one, or none, or nearly the same.
fn other_part(src: &mut Src, part: &Option<String>) -> Option<String> {
    match (src.below(4), part.clone()) {
        (0, _) => None,
        (1, Some(mut s)) => {
            let at = src.below(s.len() as u64) as usize;
            s.replace_range(at..at + 1, &src.digit().to_string());
            Some(s)
        }
        (2, Some(mut s)) => {
            let at = src.below(s.len() as u64 + 1) as usize;
            s.insert(at, *src.pick(&['0', '0', '1', '9']));
            Some(s)
        }
        _ => Some(g::part_digits(src, 3)),
    }
}

fn equality(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let Some((a, x)) = some_number(src, cx, &w, &DATABASE, false) else {
        cx.class("none");
        return Ok(());
    };
    let mut b = a.clone();
    let mut changed = Vec::new();
    for part in ["source", "code", "national", "zeros", "ext", "carrier"] {
        if !src.chance(1, 5) {
            continue;
        }
        changed.push(part);
        match part {
            "source" => b.source = src.pick(&["Plus", "Idd", "Number", "Default"]),
            "code" if src.chance(1, 4) => b.code ^= 1 << src.below(16),
            "code" => b.code = w.model.terrs[g::territory(src, &w)].code,
            "national" => {
                let k = src.below(b.national.len() as u64) as usize;
                b.national.replace_range(k..k + 1, &src.digit().to_string());
            }
            "zeros" => {
                // Only as many zeros in front as before, or more, or fewer.
                let t = b.national.trim_start_matches('0').to_string();
                b.national = format!("{}{t}", "0".repeat(src.below(5) as usize));
            }
            "ext" => b.ext = other_part(src, &a.ext),
            _ => b.carrier = other_part(src, &a.carrier),
        }
    }
    b.national.truncate(17);
    if b.national.is_empty() || b.national.parse::<u64>().unwrap() >> 56 != 0 {
        cx.class("none");
        return Ok(());
    }
    let Some(y) = world::build(&b) else {
        cx.class("not built");
        return Ok(());
    };
    cx.input = format!("{} / {}", a.show(), b.show());
    let want = Num {
        source: "",
        ..a.clone()
    } == Num {
        source: "",
        ..b.clone()
    };
    cx.class(if want {
        if a.source == b.source {
            "same"
        } else {
            "other source"
        }
    } else {
        "differ"
    });
    if !changed.is_empty() {
        cx.nontrivial(&cx.input.clone());
    }

    same!(x == y, want, "==");
    same!(y == x, want, "== the other way");
    same!(x != y, !want, "!=");
    let (p, q) = (x.clone(), y.clone());
    check!(p == x && q == y && hash(&p) == hash(&x), "a clone differs");
    same!(world::to_num(&p), a, "clone");
    if want {
        same!(hash(&x), hash(&y), "hash of equal numbers");
    }
    let set: HashSet<PhoneNumber> = [x.clone(), y.clone()].into();
    same!(set.len(), if want { 1 } else { 2 }, "numbers in a set");
    check!(
        set.contains(&x) && set.contains(&y),
        "a number is not found in a set"
    );

    // Parts.
    same!(x.code() == y.code(), a.code == b.code, "== of codes");
    if a.code == b.code {
        same!(hash(x.code()), hash(y.code()), "hash of codes");
    }
    same!(
        x.national() == y.national(),
        a.national == b.national,
        "== of national numbers"
    );
    same!(
        x.extension() == y.extension(),
        a.ext == b.ext,
        "== of extensions"
    );
    same!(
        x.carrier() == y.carrier(),
        a.carrier == b.carrier,
        "== of carriers"
    );
    Ok(())
}

fn both<T>(v: &T, what: &str) -> Result<[T; 2], crate::engine::Failure>
where
    T: serde::Serialize + serde::de::DeserializeOwned,
{
    let err = |e: String| crate::engine::Failure {
        signature: format!("{what}: {e}"),
        message: format!("{what}: {e}"),
        fault: false,
    };
    let j = serde_json::to_string(v).map_err(|e| err(e.to_string()))?;
    let b = postcard::to_allocvec(v).map_err(|e| err(e.to_string()))?;
    Ok([
        serde_json::from_str(&j).map_err(|e| err(format!("{j}: {e}")))?,
        postcard::from_bytes(&b).map_err(|e| err(format!("{b:?}: {e}")))?,
    ])
}

const TYPES: [Type; 17] = [
    Type::FixedLine,
    Type::Mobile,
    Type::FixedLineOrMobile,
    Type::TollFree,
    Type::PremiumRate,
    Type::SharedCost,
    Type::PersonalNumber,
    Type::Voip,
    Type::Pager,
    Type::Uan,
    Type::Emergency,
    Type::Voicemail,
    Type::ShortCode,
    Type::StandardRate,
    Type::Carrier,
    Type::NoInternational,
    Type::Unknown,
];

fn stored(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let Some((num, number)) = some_number(src, cx, &w, &DATABASE, false) else {
        cx.class("none");
        return Ok(());
    };
    cx.class(num.source);
    cx.nontrivial(&cx.input.clone());

    for back in both(&number, "number")? {
        same!(world::to_num(&back), num, "number");
        check!(
            back == number && hash(&back) == hash(&number),
            "number differs"
        );
    }
    for back in both(number.code(), "code")? {
        let _: &Code = &back;
        same!(back.value(), num.code, "code");
        same!(back.source(), number.code().source(), "source");
    }
    for back in both(number.national(), "national number")? {
        same!(back, *number.national(), "national number");
    }
    if let Some(e) = number.extension() {
        for back in both(e, "extension")? {
            same!(back, *e, "extension");
        }
    }
    if let Some(c) = number.carrier() {
        for back in both(c, "carrier")? {
            same!(back, *c, "carrier");
        }
    }
    let s: Source = number.code().source();
    for back in both(&s, "source")? {
        same!(back, s, "source");
    }
    let t = *src.pick(&TYPES);
    for back in both(&t, "type")? {
        same!(back, t, "type");
    }
    let name = &g::any_region(src, &w).id;
    let Ok(id) = name.parse::<Id>() else {
        return crate::engine::fail(format!("{name} is no country"));
    };
    for back in both(&id, "country")? {
        same!(back, id, "country");
    }
    // Several at once, as in a contact list.
    let list = vec![number.clone(), number.clone()];
    for back in both(&list, "list")? {
        same!(back, list, "list");
    }
    Ok(())
}

fn parts(src: &mut Src, cx: &mut Cx) -> Outcome {
    match src.below(6) {
        0 => {
            let bits = src.range(0, 64);
            let value = match src.below(6) {
                0 => (1u64 << 56) - 1 + src.below(3),
                _ if bits == 0 => 0,
                _ => {
                    let v = (src.below(1 << 32) << 32) | src.below(1 << 32);
                    v >> (64 - bits)
                }
            };
            let zeros = match src.below(3) {
                0 => src.below(4) as u8,
                1 => src.below(256) as u8,
                _ => 0,
            };
            cx.input = format!("NationalNumber::new({value}, {zeros})");
            let n = NationalNumber::new(value, zeros);
            if value >= 1 << 56 {
                cx.class("too large");
                cx.nontrivial(&cx.input.clone());
                check!(
                    matches!(n, Err(phonenumber::ParseError::TooLong)),
                    "accepted: {n:?}"
                );
                return Ok(());
            }
            cx.class("value");
            cx.nontrivial(&cx.input.clone());
            let Ok(n) = n else {
                return crate::engine::fail(format!("rejected: {n:?}"));
            };
            same!(n.value(), value, "value()");
            same!(n.zeros(), zeros, "zeros()");
            same!(u64::from(n), value, "as u64");
            let text = format!("{}{value}", "0".repeat(zeros as usize));
            same!(n.to_string(), text, "written");
            same!(text.parse::<NationalNumber>().ok(), Some(n), "read back");
        }
        1 => {
            let zeros = match src.below(3) {
                0 => 0,
                1 => src.below(5),
                _ => src.below(300),
            } as usize;
            let k = src.range(0, 20) as usize;
            let s = format!("{}{}", "0".repeat(zeros), src.digits(k));
            cx.input = format!("{s:?}.parse::<NationalNumber>()");
            cx.class("digits");
            cx.nontrivial(&cx.input.clone());
            let z = s.bytes().take_while(|&b| b == b'0').count();
            let z = if z == s.len() { z.saturating_sub(1) } else { z };
            let want = s
                .parse::<u128>()
                .ok()
                .filter(|&v| v < 1 << 56 && z < 256)
                .map(|v| (v as u64, z as u8));
            let got = s.parse::<NationalNumber>();
            same!(
                got.as_ref().ok().map(|n| (n.value(), n.zeros())),
                want,
                "value and zeros"
            );
            if let Ok(n) = got {
                same!(n.to_string(), s, "written");
            }
        }
        2 => {
            let s = match src.below(3) {
                0 => g::unicode(src, 6),
                1 => g::soup(src, 6),
                _ => src.digits(4),
            };
            cx.input = format!("Extension and Carrier of {s:?}");
            cx.class("text");
            cx.nontrivial(&cx.input.clone());
            let e = Extension::from(s.as_str());
            let f = Extension::from(s.clone());
            check!(e == f && hash(&e) == hash(&f), "extensions differ");
            same!(&*e, s.as_str(), "extension");
            same!(e.as_ref(), s.as_str(), "extension");
            same!(e.to_string(), s, "extension");
            let c = Carrier::from(s.as_str());
            let d = Carrier::from(s.clone());
            check!(c == d && hash(&c) == hash(&d), "carriers differ");
            same!(&*c, s.as_str(), "carrier");
            same!(c.as_ref(), s.as_str(), "carrier");
            same!(c.to_string(), s, "carrier");
            let longer = Extension::from(format!("{s}0"));
            check!(longer != e, "different extensions are equal");
            check!(
                Carrier::from(format!("{s}0")) != c,
                "different carriers are equal"
            );
            // Not a number, for most of them.
            let _ = s.parse::<NationalNumber>();
        }
        3 => {
            let w = world();
            let a = &g::region(src, &w).id;
            let b = &g::any_region(src, &w).id;
            cx.input = format!("country {a}, {b}");
            cx.class("country");
            cx.nontrivial(&cx.input.clone());
            let (Ok(x), Ok(y)) = (a.parse::<Id>(), b.parse::<Id>()) else {
                return crate::engine::fail(format!("{a} or {b} is not known"));
            };
            same!(x.as_ref(), a.as_str(), "country");
            same!(x == y, a == b, "==");
            same!(format!("{x:?}"), *a, "country");
        }
        4 => {
            let w = world();
            let s: String = match src.below(4) {
                0 => (0..2)
                    .map(|_| (b'A' + src.below(26) as u8) as char)
                    .collect(),
                1 => g::region(src, &w).id.to_lowercase(),
                2 => format!("{}{}", g::region(src, &w).id, g::soup(src, 1)),
                _ => g::soup(src, 3),
            };
            cx.input = format!("{s:?}.parse::<country::Id>()");
            cx.class("no country");
            cx.nontrivial(&cx.input.clone());
            // Only what it is called.
            if let Ok(id) = s.parse::<Id>() {
                same!(id.as_ref(), s.as_str(), "country");
            } else {
                check!(w.model.terr(&s).is_none() || s == "001", "{s} is not known");
            }
        }
        _ => {
            use Validation::*;
            let all = [
                IsPossible,
                IsPossibleLocalOnly,
                InvalidCountryCode,
                TooShort,
                InvalidLength,
                TooLong,
            ];
            let v = *src.pick(&all);
            cx.input = format!("{v:?}");
            cx.class("validation");
            cx.nontrivial(&cx.input.clone());
            same!(
                v.is_possible(),
                matches!(v, IsPossible | IsPossibleLocalOnly),
                "possible"
            );
            same!(v.is_invalid(), !v.is_possible(), "invalid");
            same!(
                v.is_invalid_length(),
                matches!(v, TooShort | InvalidLength | TooLong),
                "invalid length"
            );
        }
    }
    Ok(())
}
