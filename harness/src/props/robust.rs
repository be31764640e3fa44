//! Whatever is put in: C01, C13, C28 and C29.

use crate::engine::{Cx, Outcome, Property};
use crate::generate as g;
use crate::model;
use crate::props::format::show;
use crate::props::metadata::{Other, numbered, pooled};
use crate::props::parsing::{any_text, random_hint};
use crate::props::plan::some_number;
use crate::src::Src;
use crate::world::{self, MODES, World, outcome, world};
use crate::{check, same};
use phonenumber::country::Id;
use phonenumber::metadata::{DATABASE, Database};
use phonenumber::{NationalNumber, PhoneNumber};
use std::collections::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier, Mutex};

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "a text of any characters up to 20 000 of them, a stored number with any values, \
                   and every operation on what comes out; non-trivial when a number comes out, \
                   distinct by input",
            quick: 1_000_000,
            assumptions: &["compiled with overflow checks and debug assertions"],
            run: total,
        },
        Property {
            id: "C13",
            rule: "a text (soup of the parser's characters, a dialled number, a mutation); \
                   non-trivial when it is viable or has two digits, distinct by text",
            quick: 3_000_000,
            assumptions: &[],
            run: viable,
        },
        Property {
            id: "C28",
            rule: "a text, a region and a number, and each way to ask for the same thing; \
                   non-trivial when the text parses, distinct by text and region",
            quick: 700_000,
            assumptions: &[],
            run: coherent,
        },
        Property {
            id: "C29",
            rule: "24 texts and their regions, unrelated or variations of one number, in the \
                   embedded and other databases, in sequence, in another order, and in four threads at \
                   once; or many numbers of one code against fresh threads, or databases that take each \
                   other's place in memory; every 1500th in a new process whose threads race for the \
                   first use; \
                   non-trivial with at least one that parses, distinct by texts",
            quick: 9_000,
            assumptions: &["the operating system's scheduler provides the interleavings"],
            run: repeatable,
        },
    ]
}

// ---------------------------------------------------------------------------
// Totality
// ---------------------------------------------------------------------------

/// Everything there is to do with a number.
pub fn exercise(n: &PhoneNumber) -> String {
    let mut out = String::new();
    for m in MODES {
        out.push_str(&format!("{:?};", show(n.format().mode(world::mode(m)))));
    }
    let mut h = DefaultHasher::new();
    n.hash(&mut h);
    let _ = h.finish();
    out.push_str(&format!(
        "{n:?};{:?};{:?};{:?};{:?};{:?};{:?};{:?};{:?};{:?}",
        show(n),
        n.is_valid(),
        n.number_type(),
        n.metadata(&DATABASE).map(|m| m.id()),
        n.country().code(),
        n.country().id().ok(),
        n.country().source(),
        n.national().to_string(),
        serde_json::to_string(n).ok(),
    ));
    assert!(n == n);
    out
}

/// Something to write to that is full after so many bytes, and that asks for
/// more numbers to be written or read while one is.
struct Sink<'a> {
    text: String,
    room: usize,
    other: Option<&'a PhoneNumber>,
}

impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if let Some(n) = self.other {
            for m in MODES {
                show(n.format().mode(world::mode(m)));
            }
            n.is_valid();
            let _ = phonenumber::parse(Some(Id::US), "(650) 253-0000 ext. 12");
        }
        if s.len() > self.room {
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

/// Write it in every mode where there may not be room for it.
fn poured(src: &mut Src, n: &PhoneNumber) -> Outcome {
    for m in MODES {
        let Some(whole) = show(n.format().mode(world::mode(m))) else {
            continue;
        };
        let mut sink = Sink {
            text: String::new(),
            room: src.below(whole.len() as u64 + 4) as usize,
            other: src.chance(1, 2).then_some(n),
        };
        let room = sink.room;
        let got = write!(sink, "{}", n.format().mode(world::mode(m)));
        same!(
            got.is_ok(),
            room >= whole.len(),
            "written in {m:?} where there is room for {room} bytes"
        );
        if got.is_ok() {
            same!(sink.text, whole, "written in {m:?} while others are");
        } else {
            check!(
                whole.starts_with(&sink.text),
                "{:?} of {whole:?} is written",
                sink.text
            );
        }
    }
    Ok(())
}

fn long(src: &mut Src) -> String {
    let piece = match src.below(4) {
        0 => g::soup(src, 2),
        1 => src.digits(1),
        2 => src
            .pick(&[
                "+",
                "x",
                " ",
                "-",
                "(",
                ";",
                "/x",
                "ext",
                ";ext=",
                ";a=b",
                "1 x",
                "tel:",
                "\u{FF0B}",
                "/ ",
                "0",
                ";phone-context=+1",
                "a",
                "#",
                "*",
                "1/",
                "~1",
                "é",
                "/          ",
                "\\ ",
            ])
            .to_string(),
        _ => g::unicode(src, 2),
    };
    let n = match src.below(8) {
        0 => src.range(1, 20_000),
        1..3 => src.range(1, 2_000),
        _ => src.range(1, 200),
    } as usize;
    let n = n / piece.len().max(1) + 1;
    let (a, b) = (g::soup(src, 4), g::soup(src, 4));
    format!("{a}{}{b}", piece.repeat(n))
}

fn json_number(src: &mut Src) -> String {
    let w = world();
    let pick = |src: &mut Src, list: &[&str]| src.pick(list).to_string();
    let code = match src.below(6) {
        0 => src.below(70_000).to_string(),
        1 => pick(src, &["0", "65535", "-1", "null", "\"1\"", "1.0"]),
        _ => w.model.terrs[g::territory(src, &w)].code.to_string(),
    };
    let source = match src.below(8) {
        0 => pick(src, &["\"Plus\"", "\"\"", "null", "1", "{\"plus\":null}"]),
        _ => pick(src, &["\"plus\"", "\"idd\"", "\"number\"", "\"default\""]),
    };
    let value = match src.below(4) {
        0 => (src.below(1 << 32) << 32 | src.below(1 << 32)).to_string(),
        1 => pick(
            src,
            &[
                "0",
                "18446744073709551615",
                "72057594037927936",
                "-1",
                "null",
                "1e3",
            ],
        ),
        2 => (src.below(256) << 56 | src.below(1 << 30)).to_string(),
        _ => src.below(10_000_000_000).to_string(),
    };
    let text = |src: &mut Src| match src.below(5) {
        0 => "null".to_string(),
        1 => serde_json::to_string(&g::unicode(src, 6)).unwrap(),
        2 => serde_json::to_string(&g::soup(src, 6)).unwrap(),
        3 => pick(
            src,
            &[
                "\"$1\"", "\"$0$2\"", "\"${x}\"", "\"\"", "1", "\"$NP\"", "\"$FG\"", "\"$CC\"",
                "[]",
            ],
        ),
        _ => {
            let d = g::part_digits(src, 9);
            format!("\"{d}\"")
        }
    };
    let (e, c) = (text(src), text(src));
    let s = format!(
        "{{\"code\":{{\"value\":{code},\"source\":{source}}},\"national\":{{\"value\":{value}}},\
         \"extension\":{e},\"carrier\":{c}}}"
    );
    if src.chance(1, 8) {
        g::mutate(src, &s)
    } else {
        s
    }
}

fn total(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    match src.below(8) {
        0..=1 => {
            let s = json_number(src);
            cx.input = format!("stored: {s}");
            let got = serde_json::from_str::<PhoneNumber>(&s);
            cx.class(if got.is_ok() {
                "stored"
            } else {
                "stored, rejected"
            });
            if let Ok(n) = got {
                cx.nontrivial(&cx.input.clone());
                exercise(&n);
                poured(src, &n)?;
                // With any format of any region.
                let r = g::any_region(src, &w);
                if let Some(m) = DATABASE.by_id(&r.id)
                    && !m.formats().is_empty()
                {
                    let f = &m.formats()[src.below(m.formats().len() as u64) as usize];
                    cx.input
                        .push_str(&format!(" with {} of {}", f.pattern(), r.id));
                    for m in MODES {
                        show(n.format().mode(world::mode(m)).with(f));
                    }
                }
                let _ = n.code().source();
            }
            return Ok(());
        }
        2 => {
            // The bytes of a binary format.
            let k = src.below(40) as usize;
            let b: Vec<u8> = (0..k)
                .map(|_| if src.chance(1, 2) { src.below(8) } else { src.below(256) } as u8)
                .collect();
            cx.input = format!("stored: {b:?}");
            cx.class("bytes");
            if let Ok(n) = postcard::from_bytes::<PhoneNumber>(&b) {
                cx.nontrivial(&cx.input.clone());
                exercise(&n);
            }
            return Ok(());
        }
        _ => (),
    }
    let (hint, text) = match src.below(6) {
        0 => {
            let s = long(src);
            (
                src.chance(1, 2).then(|| g::any_region(src, &w).id.clone()),
                s,
            )
        }
        1 => {
            let s = g::unicode(src, 30);
            (
                src.chance(1, 2).then(|| g::any_region(src, &w).id.clone()),
                s,
            )
        }
        2 => {
            let s = g::soup(src, 40);
            (
                src.chance(1, 2).then(|| g::any_region(src, &w).id.clone()),
                s,
            )
        }
        _ => any_text(src, &w),
    };
    let short: String = text.chars().take(200).collect();
    cx.input = format!("parse({hint:?}, {short:?}) of {} bytes", text.len());
    phonenumber::is_viable(&text);
    let _ = text.parse::<PhoneNumber>();
    let _ = text.parse::<NationalNumber>();
    let _ = text.parse::<Id>();
    let _ = serde_json::from_str::<PhoneNumber>(&text);
    let got = phonenumber::parse(hint.as_deref().and_then(world::id), &text);
    match got {
        Ok(n) => {
            cx.class("a number");
            cx.nontrivial(&format!("{hint:?} {text}"));
            exercise(&n);
            check!(show(&n).is_some(), "a parsed number cannot be written");
            poured(src, &n)?;
            for m in MODES {
                check!(
                    show(n.format().mode(world::mode(m))).is_some(),
                    "a parsed number cannot be written in {m:?}"
                );
            }
        }
        Err(e) => {
            cx.class(world::error_name(&e));
            check!(!e.to_string().is_empty(), "an error without a message");
            let _ = format!("{e:?}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Viability
// ---------------------------------------------------------------------------

fn viable(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let text = match src.below(8) {
        0 => g::soup(src, 10),
        1 => g::unicode(src, 6),
        2 => any_text(src, &w).1,
        3 => {
            let n = src.below(4) as usize;
            let s = src.digits(n);
            g::decorate(src, &s)
        }
        k => {
            // Built after the grammar, then edited.
            let mut s = String::new();
            for _ in 0..src.below(3) {
                s.push_str(src.pick(&["+", "\u{FF0B}"]));
            }
            let digits = if src.chance(1, 16) {
                g::many(src)
            } else {
                src.range(1, 9)
            };
            let filler = src.below(3);
            for i in 0..digits {
                for _ in 0..src.below(filler + 1) {
                    if src.chance(1, 6) {
                        s.push('*');
                    } else {
                        s.push(*src.pick(model::PUNCTUATION));
                    }
                }
                let d = src.digit();
                let z = if src.chance(1, 3) {
                    *src.pick(model::ZEROS)
                } else {
                    0x30
                };
                s.push(g::write_digit(src, d, z));
                if i >= 2 && src.chance(1, 6) {
                    let b = *src.pick(b"abcXYZqx");
                    s.push(b as char);
                }
            }
            if k > 5 { g::mutate(src, &s) } else { s }
        }
    };
    cx.input = format!("is_viable({text:?})");
    let want = model::viable(&text);
    cx.class(if want { "viable" } else { "not viable" });
    if want || text.chars().filter(|c| c.is_numeric()).count() >= 2 {
        cx.nontrivial(&text);
    }
    same!(phonenumber::is_viable(&text), want, "is_viable");
    same!(
        phonenumber::is_viable(text.as_str()),
        want,
        "is_viable of a &str"
    );

    Ok(())
}

// ---------------------------------------------------------------------------
// One thing asked for in several ways
// ---------------------------------------------------------------------------

fn coherent(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let (hint, text) = any_text(src, &w);
    let id = hint.as_deref().and_then(world::id);
    cx.input = format!("parse({hint:?}, {text:?})");

    let base = phonenumber::parse(id, &text);
    let want = outcome(&base);
    same!(
        outcome(&phonenumber::parse(id, text.clone())),
        want,
        "parse of a String"
    );
    same!(
        outcome(&phonenumber::parse(id, text.as_str())),
        want,
        "parse of a &str"
    );
    same!(
        outcome(&phonenumber::parse_with(&DATABASE, id, &text)),
        want,
        "parse_with the embedded database"
    );
    let none = outcome(&phonenumber::parse(None, &text));
    same!(outcome(&text.parse::<PhoneNumber>()), none, "FromStr");
    if id.is_none() {
        same!(none, want, "parse without a region");
    }

    // A number, of this text or any.
    let (num, n) = match base {
        Ok(n) => {
            cx.class("parsed");
            cx.nontrivial(&cx.input.clone());
            (world::to_num(&n), n)
        }
        Err(_) => {
            let input = cx.input.clone();
            let Some(x) = some_number(src, cx, &w, &DATABASE, false) else {
                cx.class("none");
                return Ok(());
            };
            cx.class("built");
            cx.input = format!("{input}, {}", cx.input);
            x
        }
    };
    same!(n.code().value(), num.code, "code");
    same!(n.country().code(), num.code, "country().code()");
    same!(n.country().value(), num.code, "country() as a code");
    same!(
        n.country().source(),
        n.code().source(),
        "country() as a code"
    );
    same!(u16::from(*n.code()), num.code, "code as u16");
    same!(
        u64::from(*n.national()),
        n.national().value(),
        "national as u64"
    );
    same!(
        n.national().to_string().parse::<NationalNumber>().ok(),
        Some(*n.national()),
        "national"
    );
    same!(n.is_valid(), phonenumber::is_valid(&n), "is_valid");
    same!(n.is_valid(), n.is_valid_with(&DATABASE), "is_valid_with");
    same!(
        n.is_valid(),
        phonenumber::is_valid_with(&DATABASE, &n),
        "is_valid_with"
    );
    same!(
        n.number_type(),
        n.number_type_with(&DATABASE),
        "number_type_with"
    );
    same!(
        n.is_valid(),
        n.number_type() != phonenumber::Type::Unknown,
        "valid, and of a type"
    );
    let plain = show(n.format());
    same!(show(&n), plain, "Display");
    same!(show(phonenumber::format(&n)), plain, "format()");
    same!(show(n.format_with(&DATABASE)), plain, "format_with()");
    same!(
        show(phonenumber::format_with(&DATABASE, &n)),
        plain,
        "format_with()"
    );
    same!(show(n.format().database(&DATABASE)), plain, "database()");
    for m in MODES {
        let mode = world::mode(m);
        let f = n.format().mode(mode);
        let s = show(f);
        same!(show(f), s, "{m:?} again");
        same!(
            show(phonenumber::format(&n).mode(mode)),
            s,
            "format() in {m:?}"
        );
        same!(
            show(n.format_with(&DATABASE).mode(mode)),
            s,
            "format_with() in {m:?}"
        );
        same!(
            show(phonenumber::format_with(&DATABASE, &n).mode(mode)),
            s,
            "format_with() in {m:?}"
        );
        same!(
            show(n.format().database(&DATABASE).mode(mode)),
            s,
            "database() in {m:?}"
        );
        same!(
            show(n.format().mode(mode).database(&DATABASE)),
            s,
            "database() in {m:?}"
        );
        if m == model::Mode::E164 {
            same!(plain, s, "E.164 by default");
        }
    }
    poured(src, &n)?;
    match (n.metadata(&DATABASE), n.country().id()) {
        (None, got) => check!(
            matches!(got, Ok(None)) && !n.is_valid(),
            "no region, but {got:?} and valid: {}",
            n.is_valid()
        ),
        (Some(m), got) if m.id() != "001" => {
            same!(
                got.ok().flatten().map(|i| i.as_ref().to_string()),
                Some(m.id().to_string()),
                "id"
            );
        }
        _ => (),
    }
    match pooled(src, 1, 4) {
        Some(o) if !o.world.regions.is_empty() => coherent_in(src, cx, &o, n),
        _ => Ok(()),
    }
}

/// The same for a database of the caller's.
fn coherent_in(src: &mut Src, cx: &mut Cx, o: &Other, n: PhoneNumber) -> Outcome {
    let db = &o.db;
    let (hint, text) = any_text(src, &o.world);
    let id = hint.as_deref().and_then(world::id);
    cx.class("another database too");
    cx.input
        .push_str(&format!(", {hint:?} {text:?} in {}", o.name));
    let base = phonenumber::parse_with(db, id, &text);
    let want = outcome(&base);
    same!(
        outcome(&phonenumber::parse_with(db, id, text.clone())),
        want,
        "parse_with of a String"
    );
    same!(
        outcome(&phonenumber::parse_with(&db.clone(), id, text.as_str())),
        want,
        "parse_with a clone of the database"
    );
    let n = base.unwrap_or(n);
    let valid = n.is_valid_with(db);
    same!(phonenumber::is_valid_with(db, &n), valid, "is_valid_with");
    same!(
        n.number_type_with(db) != phonenumber::Type::Unknown,
        valid,
        "valid, and of a type"
    );
    let plain = show(n.format_with(db));
    same!(
        show(phonenumber::format_with(db, &n)),
        plain,
        "format_with()"
    );
    same!(show(n.format().database(db)), plain, "database()");
    for m in MODES {
        let mode = world::mode(m);
        let s = show(n.format_with(db).mode(mode));
        same!(
            show(phonenumber::format_with(db, &n).mode(mode)),
            s,
            "format_with() in {m:?}"
        );
        same!(
            show(n.format().mode(mode).database(db)),
            s,
            "database() in {m:?}"
        );
        same!(
            show(phonenumber::format(&n).database(db).mode(mode)),
            s,
            "database() in {m:?}"
        );
        if m == model::Mode::E164 {
            same!(plain, s, "E.164 by default");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Histories and threads
// ---------------------------------------------------------------------------

/// Region, text, and one of the pool of databases.
type Query = (Option<String>, String, Option<u64>);

fn answer((hint, text, other): &Query) -> String {
    let viable = phonenumber::is_viable(text);
    let id = hint.as_deref().and_then(world::id);
    if let Some(db) = other.and_then(shared) {
        return format!("{viable} {}", answer_in(&db, hint, text));
    }
    match phonenumber::parse(id, text) {
        Ok(n) => format!("{viable} {}", exercise(&n)),
        Err(e) => format!("{viable} {e:?}"),
    }
}

fn answer_in(db: &Database, hint: &Option<String>, text: &str) -> String {
    match phonenumber::parse_with(db, hint.as_deref().and_then(world::id), text) {
        Ok(n) => {
            let modes: Vec<_> = MODES
                .iter()
                .map(|m| show(n.format_with(db).mode(world::mode(*m))))
                .collect();
            format!(
                "{n:?} {} {:?} {:?} {modes:?}",
                n.is_valid_with(db),
                n.number_type_with(db),
                n.metadata(db).map(|m| m.id()),
            )
        }
        Err(e) => format!("{e:?}"),
    }
}

/// A database of the pool, for all threads.
fn shared(k: u64) -> Option<Arc<Database>> {
    static ALL: Mutex<BTreeMap<u64, Option<Arc<Database>>>> = Mutex::new(BTreeMap::new());
    ALL.lock()
        .unwrap()
        .entry(k)
        .or_insert_with(|| {
            let text = &numbered(k)?.name;
            Database::parse(text).ok().map(Arc::new)
        })
        .clone()
}

/// Queries that something remembered could take for one another.
fn family(src: &mut Src, w: &World, count: usize) -> Vec<Query> {
    let mut t = &w.model.terrs[g::territory(src, w)];
    let mut n = g::nsn(src, t);
    if src.chance(1, 4)
        && let Some((c, m)) = g::contested(src, w)
    {
        (t, n) = (c, m);
    }
    let other = src.below(4);
    let mut out = Vec::new();
    for _ in 0..count {
        match src.below(8) {
            0 => {
                // A region of the same code, if there are more.
                let all = &w.model.by_code[&t.code];
                t = &w.model.terrs[*src.pick(all)];
            }
            1 if src.chance(1, 2) => t = &w.model.terrs[g::territory(src, w)],
            2 if n.len() > 2 => {
                n.pop();
            }
            3 if n.len() < 15 => n.push(src.digit()),
            4 => n = g::nsn(src, t),
            _ => (),
        }
        // Another digit or two, mostly late.
        let mut d = n.clone();
        for _ in 0..src.below(3) {
            let at =
                d.len() - 1 - src.below(d.len() as u64).min(src.below(d.len() as u64)) as usize;
            d.replace_range(at..at + 1, &src.digit().to_string());
        }
        let home = (t.id != "001").then(|| t.id.clone());
        let (hint, text) = match src.below(6) {
            0 => (home, d),
            1 => (home, format!("{}{d}", t.np.clone().unwrap_or_default())),
            2 => (None, format!("tel:+{}-{d}", t.code)),
            3 => (home, format!("+{} {d} ext. {}", t.code, src.digit())),
            4 => (random_hint(src, w), format!("+{}{d}", t.code)),
            _ => (None, format!("+{}{d}", t.code)),
        };
        let text = if src.chance(1, 12) {
            g::mutate(src, &text)
        } else {
            text
        };
        let db = (other == 0 && src.chance(1, 2)).then(|| src.below(8));
        out.push((hint, text, db));
    }
    out
}

/// Answer the queries on the standard input, in several threads that start
/// with a race.
pub fn race() {
    let queries: Vec<Query> = serde_json::from_reader(std::io::stdin()).unwrap();
    let threads = 8;
    let barrier = Barrier::new(threads);
    let all: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (queries, barrier) = (&queries, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    let n = queries.len();
                    let mut out = vec![String::new(); n];
                    // Each thread starts with something else.
                    match k % 4 {
                        0 => (),
                        1 => drop(DATABASE.by_id("US").map(|m| m.id().len())),
                        2 => drop(phonenumber::is_viable("123")),
                        _ => drop("+12025550123".parse::<PhoneNumber>().map(|n| n.is_valid())),
                    }
                    for i in 0..n {
                        let i = (i + k * 5) % n;
                        out[i] = answer(&queries[i]);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().expect("a thread panicked"))
            .collect()
    });
    println!("{}", serde_json::to_string(&all).unwrap());
}

/// Few cheap questions, asked by eight threads at once again and again, so that
/// what one of them leaves half done is seen by another.
fn stress(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let count = src.range(2, 6) as usize;
    let queries: Vec<(Query, u64)> = family(src, &w, count)
        .into_iter()
        .map(|q| (q, src.below(5)))
        .collect();
    cx.input = format!("stress: {queries:?}");
    cx.class("stress");
    type Ask<'a> = (
        &'a Option<String>,
        &'a str,
        Option<Arc<Database>>,
        Option<PhoneNumber>,
        u64,
    );
    let asks: Vec<Ask> = queries
        .iter()
        .map(|((hint, text, other), what)| {
            let db = other.and_then(shared);
            let id = hint.as_deref().and_then(world::id);
            let n = phonenumber::parse_with(db.as_deref().unwrap_or(&DATABASE), id, text).ok();
            (hint, text.as_str(), db, n, *what)
        })
        .collect();
    let ask = |(hint, text, db, n, what): &Ask| -> String {
        let db = db.as_deref().unwrap_or(&DATABASE);
        match (n, what) {
            (Some(n), 0) => format!("{:?}", n.metadata(db).map(|m| m.id())),
            (Some(n), 1) => format!("{:?} {}", n.number_type_with(db), n.is_valid_with(db)),
            (Some(n), 2) => format!(
                "{:?}",
                show(n.format_with(db).mode(phonenumber::Mode::National))
            ),
            (Some(n), 3) => format!("{:?}", n.country().id().is_ok_and(|i| i.is_some())),
            _ => format!(
                "{:?}",
                phonenumber::parse_with(db, hint.as_deref().and_then(world::id), text)
            ),
        }
    };
    let first: Vec<String> = asks.iter().map(ask).collect();
    cx.nontrivial(&cx.input.clone());
    let barrier = Barrier::new(8);
    let bad: Vec<Option<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8)
            .map(|k| {
                let (asks, first, barrier, ask) = (&asks, &first, &barrier, &ask);
                s.spawn(move || {
                    barrier.wait();
                    for i in 0..2000 {
                        let i = (i / (1 + k % 3) + k) % asks.len();
                        let got = ask(&asks[i]);
                        if got != first[i] {
                            return Some((i, got));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or(Some((0, "a panic".into()))))
            .collect()
    });
    if let Some((i, got)) = bad.into_iter().flatten().next() {
        same!(
            got,
            first[i],
            "among threads that ask at the same time, {:?}",
            queries[i]
        );
    }
    Ok(())
}

/// Many numbers of one country code, so that what is remembered by a part of
/// the number, or for so many of them, is mixed up.
fn crowd(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let t = &w.model.terrs[match src.chance(3, 4) {
        true => *src.pick(&w.shared),
        false => g::territory(src, &w),
    }];
    let all = &w.model.by_code[&t.code];
    let count = src.range(2, 600) as usize;
    let texts: Vec<String> = (0..count)
        .map(|_| {
            let t = &w.model.terrs[*src.pick(all)];
            let n = if src.chance(7, 8) {
                g::nsn(src, t)
            } else {
                g::near_nsn(src, t)
            };
            format!("+{}{n}", t.code)
        })
        .collect();
    cx.input = format!("{texts:?}");
    cx.class("one code");
    cx.nontrivial(&cx.input.clone());
    let ask = |text: &String| match text.parse::<PhoneNumber>() {
        Ok(n) => format!(
            "{n:?} {:?} {:?} {} {:?}",
            n.metadata(&DATABASE).map(|m| m.id()),
            n.number_type(),
            n.is_valid(),
            show(n.format().mode(phonenumber::Mode::National))
        ),
        Err(e) => format!("{e:?}"),
    };
    let first: Vec<String> = texts.iter().map(ask).collect();
    let chunk = src.range(1, 40) as usize;
    let mut again: Vec<(usize, String)> = Vec::new();
    // In new threads, a few each.
    std::thread::scope(|s| {
        for start in (0..count).step_by(chunk).rev() {
            let texts = &texts;
            let h = s.spawn(move || {
                (start..count.min(start + chunk))
                    .rev()
                    .map(|i| (i, ask(&texts[i])))
                    .collect::<Vec<_>>()
            });
            again.extend(h.join().unwrap_or_default());
        }
    });
    check!(again.len() == count, "a thread panicked");
    for (i, got) in again {
        same!(got, first[i], "among others, {:?}", texts[i]);
    }
    Ok(())
}

/// A database that takes the place of another in memory.
fn replaced(src: &mut Src, cx: &mut Cx) -> Outcome {
    let Some(o) = numbered(src.below(96)) else {
        return Ok(());
    };
    // The same document with other names, formats, prefixes or lengths.
    let edit = |text: &str, k: u64| -> String {
        let mut out = text.to_string();
        if k & 1 != 0 {
            let ids: Vec<&String> = o.world.model.terrs.iter().map(|t| &t.id).collect();
            for q in ['"', '\''] {
                for (i, id) in ids.iter().enumerate().filter(|x| *x.1 != "001") {
                    let new = ["BE", "NL", "CH", "AT", "ES", "PT", "PL", "SE"].get(i);
                    if let Some(new) = new {
                        out = out.replace(&format!(" id={q}{id}{q}"), &format!(" id={q}{new}{q}"));
                    }
                }
            }
        }
        if k & 2 != 0 {
            out = out.replace("<format>$1", "<format>$1~");
            out = out.replace("<intlFormat>$1", "<intlFormat>$1/");
        }
        if k & 4 != 0 {
            out = out.replace("nationalPrefix=\"0\"", "nationalPrefix=\"7\"");
            out = out.replace("internationalPrefix=\"00\"", "internationalPrefix=\"99\"");
        }
        if k & 8 != 0 {
            out = out.replace("[0-9]{4}", "[0-9]{5}");
            out = out.replace("[0-9]{6}", "[1-8]{6}");
        }
        if k & 16 != 0 {
            out = out
                .replace("<mobile>", "<pager>")
                .replace("</mobile>", "</pager>");
            out = out.replace(
                "mainCountryForCode=\"true\"",
                "mainCountryForCode=\"false\"",
            );
        }
        out
    };
    let docs: Vec<String> = (0..src.range(2, 4))
        .map(|_| edit(&o.name, src.below(32)))
        .collect();
    let w = &o.world;
    let texts: Vec<(Option<String>, String)> = (0..src.range(1, 6))
        .map(|_| {
            let t = &w.model.terrs[g::territory(src, w)];
            let n = g::nsn(src, t);
            match src.below(3) {
                0 => (
                    (t.id != "001").then(|| t.id.clone()),
                    format!("{}{n}", t.np.clone().unwrap_or_default()),
                ),
                _ => (None, format!("+{}{n}", t.code)),
            }
        })
        .collect();
    cx.input = format!("{texts:?} in one after the other of {docs:?}");
    cx.class("replaced database");
    cx.nontrivial(&cx.input.clone());
    let turns: Vec<(usize, usize)> = (0..docs.len() * 2)
        .map(|i| (i % docs.len(), src.below(texts.len() as u64) as usize))
        .collect();
    let mut slot: Option<Database> = None;
    let mut got: Vec<Option<Vec<String>>> = Vec::new();
    for &(d, start) in &turns {
        drop(slot.take());
        slot = Database::parse(&docs[d]).ok();
        got.push(slot.as_ref().map(|db| {
            (0..texts.len())
                .map(|i| &texts[(i + start) % texts.len()])
                .map(|(hint, text)| answer_in(db, hint, text))
                .collect()
        }));
    }
    // The former ones keep their place in memory.
    let mut kept: Vec<Arc<Option<Database>>> = Vec::new();
    for (&(d, start), got) in turns.iter().zip(got) {
        let db = Arc::new(Database::parse(&docs[d]).ok());
        kept.push(db.clone());
        let mut want: Option<Vec<String>> = (*db).as_ref().map(|_| Vec::new());
        for i in 0..texts.len() {
            let (hint, text) = &texts[(i + start) % texts.len()];
            let db = &db;
            let one = std::thread::scope(|s| {
                s.spawn(move || (**db).as_ref().map(|db| answer_in(db, hint, text)))
                    .join()
            });
            if let (Some(want), Ok(Some(one))) = (want.as_mut(), one) {
                want.push(one);
            }
        }
        same!(got, want, "document {d} of them, from text {start}");
    }
    Ok(())
}

fn repeatable(src: &mut Src, cx: &mut Cx) -> Outcome {
    let w = world();
    let turn = src.strat(1500);
    match turn % 60 {
        7 => return stress(src, cx),
        27 => return crowd(src, cx),
        37 | 47 => return replaced(src, cx),
        _ => (),
    }
    let fresh = turn == 1499;
    let related = src.chance(1, 2);
    let queries: Vec<Query> = if related {
        family(src, &w, 24)
    } else {
        (0..24)
            .map(|_| {
                let (hint, text) = any_text(src, &w);
                if src.chance(1, 3)
                    && let Some((t, n)) = g::contested(src, &w)
                {
                    return (hint, format!("+{}{n}", t.code), None);
                }
                (hint, text, src.chance(1, 8).then(|| src.below(8)))
            })
            .collect()
    };
    cx.input = format!("{queries:?}");
    let first: Vec<String> = queries.iter().map(answer).collect();
    if first.iter().any(|a| a.contains("PhoneNumber")) {
        cx.nontrivial(&cx.input.clone());
    }

    if fresh {
        cx.class(if related {
            "new process, related"
        } else {
            "new process"
        });
        let exe = std::env::current_exe().unwrap();
        let mut child = Command::new(exe)
            .arg("race")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        let input = serde_json::to_string(&queries).unwrap();
        child
            .stdin
            .take()
            .unwrap()
            .write_all(input.as_bytes())
            .unwrap();
        // A deadlock is for the caller to notice.
        let out = child.wait_with_output().unwrap();
        check!(
            out.status.success(),
            "a new process failed: {} {}",
            out.status,
            String::from_utf8_lossy(&out.stderr)
                .lines()
                .take(3)
                .collect::<Vec<_>>()
                .join(" / ")
        );
        let Ok(all) = serde_json::from_slice::<Vec<Vec<String>>>(&out.stdout) else {
            return crate::engine::fail("a new process gave no answers");
        };
        for (k, got) in all.iter().enumerate() {
            for i in 0..queries.len() {
                same!(
                    got[i],
                    first[i],
                    "thread {k} of a new process, {:?}",
                    queries[i]
                );
            }
        }
        return Ok(());
    }

    cx.class(if related {
        "threads, related"
    } else {
        "threads"
    });
    // Some of them first in a thread.
    for _ in 0..3 {
        let i = src.below(queries.len() as u64) as usize;
        let got = std::thread::scope(|s| s.spawn(|| answer(&queries[i])).join());
        check!(got.is_ok(), "a thread panicked");
        same!(
            got.unwrap_or_default(),
            first[i],
            "first in a thread, {:?}",
            queries[i]
        );
    }
    // Again, backwards.
    for i in (0..queries.len()).rev() {
        same!(answer(&queries[i]), first[i], "again, {:?}", queries[i]);
    }
    let steps: Vec<usize> = (0..4).map(|_| *src.pick(&[1, 5, 7, 11])).collect();
    let results: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = steps
            .iter()
            .map(|&step| {
                let queries = &queries;
                s.spawn(move || {
                    let mut out = vec![String::new(); queries.len()];
                    for i in 0..queries.len() {
                        let i = i * step % queries.len();
                        out[i] = answer(&queries[i]);
                    }
                    out
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_default())
            .collect()
    });
    for got in results {
        check!(got.len() == queries.len(), "a thread panicked");
        for i in 0..queries.len() {
            same!(got[i], first[i], "in threads, {:?}", queries[i]);
        }
    }
    Ok(())
}
