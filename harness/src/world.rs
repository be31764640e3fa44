//! What every property needs: the model of the embedded metadata, and the
//! bridge from the crate's types to the model's.

use crate::model::{Mode, Model, Num, Text};
use phonenumber::country::{Id, Source};
use phonenumber::{ParseError, PhoneNumber, Type};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::OnceLock;

pub const XML_PATH: &str = "/repo/assets/PhoneNumberMetadata.xml";

pub fn xml() -> &'static str {
    static XML: OnceLock<String> = OnceLock::new();
    XML.get_or_init(|| std::fs::read_to_string(XML_PATH).expect("metadata"))
}

pub struct World {
    pub model: Model,
    pub text: Text,
    /// Territories with an ID of their own, i.e. all but 001.
    pub regions: Vec<usize>,
    /// Regions of shared country codes.
    pub shared: Vec<usize>,
    /// Regions whose prefix pattern captures a carrier or transforms.
    pub capturing: Vec<usize>,
}

fn global() -> &'static Model {
    static MODEL: OnceLock<Model> = OnceLock::new();
    MODEL.get_or_init(|| Model::from_xml(xml()))
}

thread_local! {
    static WORLD: RefCell<Option<Rc<World>>> = const { RefCell::new(None) };
}

pub fn world() -> Rc<World> {
    WORLD.with(|w| {
        w.borrow_mut()
            .get_or_insert_with(|| {
                let model = global().clone();
                let all = 0..model.terrs.len();
                let filter = |f: &dyn Fn(usize) -> bool| all.clone().filter(|&i| f(i)).collect();
                let t = &model.terrs;
                Rc::new(World {
                    regions: filter(&|i| t[i].id != "001"),
                    shared: filter(&|i| model.by_code[&t[i].code].len() > 1),
                    capturing: filter(&|i| {
                        t[i].np_parse.as_ref().is_some_and(|r| r.captures_len() > 1)
                    }),
                    text: Text::default(),
                    model,
                })
            })
            .clone()
    })
}

/// Touch everything that is built lazily, once, before the threads start. If
/// that panics, so will every case that needs it.
pub fn warm_up() {
    global();
    let _ = std::panic::catch_unwind(|| {
        let _ = phonenumber::parse(None, "+16502530000").map(|n| n.is_valid());
    });
}

pub fn id(s: &str) -> Option<Id> {
    s.parse().ok()
}

pub fn source_name(s: Source) -> &'static str {
    match s {
        Source::Plus => "Plus",
        Source::Idd => "Idd",
        Source::Number => "Number",
        Source::Default => "Default",
    }
}

pub fn to_num(n: &PhoneNumber) -> Num {
    Num {
        code: n.code().value(),
        source: source_name(n.code().source()),
        national: n.national().to_string(),
        ext: n.extension().map(|e| e.to_string()),
        carrier: n.carrier().map(|e| e.to_string()),
    }
}

pub fn error_name(e: &ParseError) -> &'static str {
    match e {
        ParseError::NoNumber => "NoNumber",
        ParseError::InvalidCountryCode => "InvalidCountryCode",
        ParseError::TooShortAfterIdd => "TooShortAfterIdd",
        ParseError::TooShortNsn => "TooShortNsn",
        ParseError::TooLong => "TooLong",
        ParseError::MalformedInteger(_) => "MalformedInteger",
    }
}

pub fn outcome(r: &Result<PhoneNumber, ParseError>) -> Result<Num, &'static str> {
    match r {
        Ok(n) => Ok(to_num(n)),
        Err(e) => Err(error_name(e)),
    }
}

pub fn type_name(t: Type) -> String {
    format!("{t:?}")
}

pub fn mode(m: Mode) -> phonenumber::Mode {
    match m {
        Mode::E164 => phonenumber::Mode::E164,
        Mode::International => phonenumber::Mode::International,
        Mode::National => phonenumber::Mode::National,
        Mode::Rfc3966 => phonenumber::Mode::Rfc3966,
    }
}

pub const MODES: [Mode; 4] = [
    Mode::E164,
    Mode::International,
    Mode::National,
    Mode::Rfc3966,
];

/// Build a number from its parts, through its serialised form: the only way
/// to build one without the parser.
pub fn build(n: &Num) -> Option<PhoneNumber> {
    let zeros = n.national.len() - n.national.trim_start_matches('0').len();
    let zeros = if zeros == n.national.len() {
        zeros - 1
    } else {
        zeros
    };
    let value: u64 = n.national.parse().ok()?;
    let national = phonenumber::NationalNumber::new(value, u8::try_from(zeros).ok()?).ok()?;
    let source = match n.source {
        "Plus" => "plus",
        "Idd" => "idd",
        "Number" => "number",
        _ => "default",
    };
    let v = serde_json::json!({
        "code": {"value": n.code, "source": source},
        "national": serde_json::to_value(national).ok()?,
        "extension": n.ext,
        "carrier": n.carrier,
    });
    // How a number is stored is for C21 to check, how its parts are written is
    // not settled here.
    let number: PhoneNumber = serde_json::from_value(v).ok()?;
    let got = (
        number.national().value(),
        usize::from(number.national().zeros()),
        number.code().value(),
        source_name(number.code().source()),
    );
    if got != (value, zeros, n.code, n.source) {
        return None;
    }
    let part = |v: &serde_json::Value, s: &Option<String>| v.as_str() == s.as_deref();
    if n.ext.is_some() || n.carrier.is_some() {
        let stored = serde_json::to_value(&number).ok()?;
        if !part(&stored["extension"], &n.ext) || !part(&stored["carrier"], &n.carrier) {
            return None;
        }
    } else if number.extension().is_some() || number.carrier().is_some() {
        return None;
    }
    Some(number)
}
