//! Generated metadata: numbering plans that no country has, as documents.

use crate::model::KINDS;
use crate::src::Src;

/// Where in a document something goes wrong, for a document that has to be
/// rejected.
pub const FLAWS: &[&str] = &[
    "no id",
    "no countryCode",
    "no generalDesc",
    "no nationalNumberPattern",
    "no pattern",
    "no format",
    "countryCode",
    "mainCountryForCode",
    "mobileNumberPortableRegion",
    "optional",
    "territory optional",
    "lengths",
    "local lengths",
    "internationalPrefix",
    "nationalPrefixForParsing",
    "leadingDigits",
    "nationalNumberPattern",
    "format pattern",
    "format leadingDigits",
    "attribute",
    "territory attribute",
    "lengths attribute",
    "element",
    "desc element",
    "format element",
    "formats element",
    "end tag",
    "inner end tag",
    "entity",
    "attribute entity",
    "bytes",
    "attribute bytes",
    "attribute twice",
    "no quotes",
    "empty territory",
    "empty format",
    "empty desc",
    "root",
];

/// Stands for bytes that are no text, in the flaws of such.
pub const NO_TEXT: char = '\u{e000}';

pub struct Doc<'s> {
    src: &'s mut Src,
    out: String,
    flaw: Option<&'static str>,
    /// Whether the flaw is in the document.
    pub flawed: bool,
    /// How many places to leave without it.
    skip: u64,
    layout: u64,
    /// Whether the lengths of all numbers are known: without any, it is not
    /// specified whether a number is a possible one.
    pub sized: bool,
    /// Whether a country code may have several main countries, which leaves
    /// their order open.
    pub mains: bool,
    digit: &'static str,
    /// Whether descriptions have the lengths of others.
    alike: bool,
    last: Option<String>,
    /// How many territories, if more than usual.
    many: u64,
    /// Whether territories have many formats, each for few numbers.
    pub rich: bool,
    /// Whether all types are there, two or three with the same numbers.
    pub layered: bool,
    /// Whether country codes may begin with another.
    pub tangled: bool,
    /// Whether the text of formats is anything.
    pub worded: bool,
}

/// IDs of real regions, since only these can be told to the parser.
const IDS: &[&str] = &[
    "US", "GB", "DE", "FR", "IT", "AR", "BR", "JP", "KZ", "RU", "CA", "GG", "SJ", "NO", "AX", "FI",
];

pub struct Plan {
    pub ids: Vec<(String, u16)>,
    /// Where the territories are in the text.
    pub spans: Vec<std::ops::Range<usize>>,
}

impl<'s> Doc<'s> {
    pub fn new(src: &'s mut Src, flaw: Option<&'static str>) -> Doc<'s> {
        let layout = src.below(4);
        let skip = match flaw.is_some() && src.chance(1, 2) {
            true => src.below(12),
            false => 0,
        };
        Doc {
            skip,
            src,
            out: String::new(),
            flaw,
            flawed: false,
            layout,
            sized: false,
            mains: false,
            // This one takes longer to compile.
            digit: "[0-9]",
            alike: false,
            last: None,
            many: 0,
            rich: false,
            layered: false,
            tangled: false,
            worded: false,
        }
    }

    /// More territories, most of which share a country code.
    pub fn enlarge(&mut self, most: u64) {
        self.many = self.src.range(most / 4, most);
    }

    /// Whether this is the place for the flaw: one of those where it could be.
    fn flaw(&mut self, name: &str) -> bool {
        if self.flaw != Some(name) || self.flawed {
            return false;
        }
        self.flawed = self.skip == 0;
        self.skip = self.skip.saturating_sub(1);
        self.flawed
    }

    fn bad_flag(&mut self) -> String {
        self.src
            .pick(&[
                "yes", "TRUE", "True", "1", "0", "", " true", "false ", "tru", "no",
            ])
            .to_string()
    }

    fn bad_pattern(&mut self) -> String {
        self.src
            .pick(&[
                "(1", "0|)", "*", "[", "1{2,1}", "\\", "(?:0", "[9-0]", "(?<n", "\\d{2",
            ])
            .to_string()
    }

    /// Space between elements, and what else may stand there.
    fn space(&mut self) {
        match self.layout {
            0 => (),
            1 => self.out.push('\n'),
            _ => match self.src.below(8) {
                0 => self.out.push_str("\n  <!-- a <b> & \"c\" -->\n"),
                1 => self.out.push_str("\t \r\n"),
                2 => self.out.push_str("<!---->"),
                3 => self.out.push_str("\n<?a <b> c=\"1\"?>"),
                4 if self.src.chance(1, 200) => {
                    // Around the sizes of buffers.
                    let n = *self.src.pick(&[4096, 8192, 65536]) - 20 + self.src.below(40);
                    let c = *self.src.pick(&[" ", "\n", "<!--a-->"]);
                    self.out.push_str(&c.repeat(n as usize / c.len()));
                }
                _ => self.out.push_str("\n      "),
            },
        }
    }

    fn attrs(&mut self, mut list: Vec<(&str, String)>) {
        // In any order, in any quotes.
        for i in (1..list.len()).rev() {
            let j = self.src.below(i as u64 + 1) as usize;
            list.swap(i, j);
        }
        for (k, v) in list {
            let space = if self.layout > 1 && self.src.chance(1, 6) {
                "\n   "
            } else {
                " "
            };
            let q = if self.layout > 1 && self.src.chance(1, 6) {
                '\''
            } else {
                '"'
            };
            let v = if k == "preferredExtnPrefix" || self.layout > 1 && self.src.chance(1, 10) {
                self.escape(&v, q)
            } else {
                v
            };
            if self.flaw("attribute entity") {
                let entity = *self.src.pick(&["&other;", "&", "&#x110000;", "&;", "& "]);
                self.out.push_str(&format!("{space}{k}={q}{entity}{v}{q}"));
            } else if self.flaw("attribute bytes") {
                self.out.push_str(&format!("{space}{k}={q}{NO_TEXT}{v}{q}"));
            } else if self.flaw("attribute twice") {
                self.out
                    .push_str(&format!("{space}{k}={q}{v}{q}{space}{k}={q}{v}{q}"));
            } else if self.flaw("no quotes") {
                self.out.push_str(&format!("{space}{k}={v}"));
            } else {
                self.out.push_str(&format!("{space}{k}={q}{v}{q}"));
            }
        }
    }

    /// The same value, with references to some of its characters.
    fn escape(&mut self, v: &str, q: char) -> String {
        let mut out = String::new();
        for c in v.chars() {
            let named = match c {
                '&' => Some("&amp;"),
                '<' => Some("&lt;"),
                '>' => Some("&gt;"),
                '"' => Some("&quot;"),
                '\'' => Some("&apos;"),
                _ => None,
            };
            let need = matches!(c, '&' | '<') || c == q;
            match (named, self.src.below(8)) {
                (_, 0) => out.push_str(&format!("&#{};", c as u32)),
                (_, 1) => out.push_str(&format!("&#x{:X};", c as u32)),
                (Some(n), k) if need || k < 5 => out.push_str(n),
                _ => out.push(c),
            }
        }
        out
    }

    /// The same text, in pieces.
    fn pieces(&mut self, text: &str) -> String {
        let mut out = String::new();
        let mut rest = text;
        for n in 0.. {
            let mut at = self.src.below(rest.len() as u64 + 1) as usize;
            if n > 5 {
                at = rest.len();
            }
            while !rest.is_char_boundary(at) {
                at += 1;
            }
            let (a, b) = rest.split_at(at);
            match self.src.below(4) {
                0 => out.push_str(a),
                3 => out.push_str(&format!("{a}<?p {at}?>")),
                1 => out.push_str(&format!("<![CDATA[{a}]]>")),
                _ => out.push_str(&format!("{a}<!-- {at} -->")),
            }
            rest = b;
            if rest.is_empty() {
                break;
            }
        }
        out
    }

    /// White space in a pattern means nothing.
    fn spread(&mut self, p: &str) -> String {
        if self.layout < 2 || !self.src.chance(1, 3) {
            return p.to_string();
        }
        let mut out = String::from("\n   ");
        for c in p.chars() {
            out.push(c);
            if c == '|' || c == ':' {
                out.push_str("\n      ");
            }
        }
        out.push('\n');
        out
    }

    fn element(&mut self, name: &str, text: &str) {
        self.space();
        let text = if self.layout > 1 && self.src.chance(1, 12) {
            self.pieces(text)
        } else {
            text.to_string()
        };
        let (a, b) = (self.gap(), self.gap());
        if self.flaw("inner end tag") {
            let end = *self.src.pick(&["</other>", "", "</>", "</format"]);
            self.out.push_str(&format!("<{name}{a}>{text}{end}"));
        } else if self.flaw("bytes") {
            self.out
                .push_str(&format!("<{name}{a}>{text}{NO_TEXT}</{name}{b}>"));
        } else if self.flaw("entity") {
            let entity = *self.src.pick(&["&other;", "&", "&#x110000;", "&;", "& "]);
            self.out
                .push_str(&format!("<{name}{a}>{entity}{text}</{name}{b}>"));
        } else {
            self.out.push_str(&format!("<{name}{a}>{text}</{name}{b}>"));
        }
    }

    /// Put what was written between these places in another order.
    fn reorder(&mut self, cuts: &[usize]) {
        if self.layout < 2 || !self.src.chance(1, 3) {
            return;
        }
        let mut parts: Vec<String> = cuts
            .windows(2)
            .map(|w| self.out[w[0]..w[1]].to_string())
            .chain([self.out[cuts[cuts.len() - 1]..].to_string()])
            .collect();
        for i in (1..parts.len()).rev() {
            let j = self.src.below(i as u64 + 1) as usize;
            parts.swap(i, j);
        }
        self.out.truncate(cuts[0]);
        self.out.push_str(&parts.concat());
    }

    /// What may stand before the end of a tag.
    fn gap(&mut self) -> &'static str {
        match self.layout > 1 && self.src.chance(1, 24) {
            true => self.src.pick(&[" ", "\n", "\t\r\n "]),
            false => "",
        }
    }

    fn class(&mut self) -> String {
        match self.src.below(5) {
            0 => {
                let a = self.src.below(8);
                let b = self.src.range(a + 1, 9);
                format!("[{a}-{b}]")
            }
            1 => {
                let a = self.src.below(5);
                let b = self.src.range(5, 9);
                format!("[{a}{b}]")
            }
            2 => self.digit.into(),
            _ => self.src.digit().to_string(),
        }
    }

    /// The start of a number.
    fn lead(&mut self) -> String {
        let n = self.src.range(1, 2);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(&self.class());
        }
        if self.src.chance(1, 3) {
            let (a, b) = (self.class(), self.class());
            let c = self.class();
            s = format!("(?:{s}|{a}{b}{c})");
        }
        s
    }

    fn number(&mut self) -> String {
        let d = self.digit;
        let lead = if self.src.chance(1, 100) {
            let some: Vec<String> = (0..self.src.range(20, 120)).map(|_| self.lead()).collect();
            format!("(?:{})", some.join("|"))
        } else {
            self.lead()
        };
        let min = self.src.range(2, 9);
        match self.src.below(4) {
            0 => format!("{lead}{d}{{{min}}}"),
            1 => format!("{lead}{d}{{{min},{}}}", min + self.src.range(1, 3)),
            2 => {
                let other = self.lead();
                format!("{lead}{d}{{{min}}}|{other}{d}{{{}}}", self.src.range(2, 9))
            }
            _ => format!("{lead}{d}{{{min}}}(?:{d}{{{}}})?", self.src.range(1, 3)),
        }
    }

    fn lengths(&mut self) -> String {
        let mut parts = Vec::new();
        let mut at = self.src.range(2, 8);
        for _ in 0..self.src.range(1, 3) {
            if self.src.chance(1, 3) {
                let end = at + self.src.range(1, 3);
                parts.push(format!("[{at}-{end}]"));
                at = end;
            } else {
                parts.push(at.to_string());
            }
            at += self.src.range(1, 3);
        }
        if !self.sized && self.src.chance(1, 24) {
            // More than numbers have.
            let n = *self.src.pick(&[17u64, 255, 256, 300, 4096, 65534, 65535]);
            parts.push(n.to_string());
        }
        if self.src.chance(1, 6) {
            // They need not be in order.
            parts.reverse();
            if self.src.chance(1, 2) {
                let again = parts[0].clone();
                parts.push(again);
            }
        }
        parts.join(if self.src.chance(1, 6) { ", " } else { "," })
    }

    fn desc(&mut self, name: &str, pattern: Option<&str>) -> String {
        let pattern = match pattern {
            Some(p) => p.to_string(),
            None => self.number(),
        };
        self.space();
        let gap = self.gap();
        if self.flaw("empty desc") {
            self.out.push_str(&format!("<{name}{gap}/>"));
            return pattern;
        }
        self.out.push_str(&format!("<{name}{gap}>"));
        let general = name == "generalDesc";
        self.digit = if self.src.chance(1, 8) {
            "\\d"
        } else {
            "[0-9]"
        };
        let chance = match general {
            true => (1, 5),
            false if self.sized => (1, 1),
            false => (4, 5),
        };
        let mut cuts = vec![self.out.len()];
        if self.src.chance(chance.0, chance.1) || self.flaw == Some("lengths") {
            self.space();
            let mut list = Vec::new();
            let l = match (self.alike && self.src.chance(1, 2), self.last.clone()) {
                (true, Some(l)) => l,
                _ => self.lengths(),
            };
            self.last = Some(l.clone());
            list.push(("national", l));
            if self.src.chance(1, 3) {
                let l = self.lengths();
                list.push(("localOnly", l));
            }
            if self.flaw("lengths") {
                let bad = [
                    "x", "", "[1-", "1,", "-1", "65536", "[3,4]", "1.5", "[7-3]", "4,[9-8]",
                ];
                list[0].1 = self.src.pick(&bad).to_string();
            } else if self.flaw("local lengths") {
                list.retain(|a| a.0 != "localOnly");
                list.push(("localOnly", "?".into()));
            } else if self.flaw("lengths attribute") {
                list.push(("other", "1".into()));
            }
            self.out.push_str("<possibleLengths");
            self.attrs(list);
            let end = match self.layout > 1 && self.src.chance(1, 4) {
                true => *self.src.pick(&[
                    "></possibleLengths>",
                    " />",
                    ">\n   </possibleLengths>",
                    "><!-- > --></possibleLengths >",
                ]),
                false => "/>",
            };
            self.out.push_str(end);
        }
        cuts.push(self.out.len());
        if self.src.chance(1, 2) {
            let n = self.src.range(3, 9) as usize;
            let e = self.src.digits(n);
            self.element("exampleNumber", &e);
        } else if self.layout > 1 && self.src.chance(1, 12) {
            self.space();
            self.out.push_str("<exampleNumber/>");
        }
        cuts.push(self.out.len());
        if self.flaw("desc element") {
            self.element("other", "1");
        }
        if self.flaw("nationalNumberPattern") {
            let p = self.bad_pattern();
            self.element("nationalNumberPattern", &p);
        } else if !self.flaw("no nationalNumberPattern") {
            let p = self.spread(&pattern);
            self.element("nationalNumberPattern", &p);
        }
        self.reorder(&cuts);
        self.space();
        self.out.push_str(&format!("</{name}>"));
        pattern
    }

    fn rule(&mut self, carrier: bool) -> String {
        let rules: &[&str] = if carrier {
            &[
                "$NP $CC $FG",
                "$NP$CC $FG",
                "$NP $CC ($FG)",
                "$CC$FG",
                "($CC) $FG",
                "$FG $CC",
                "$FG$CC",
                "$NP$CC-$CC $FG",
                "$NP $CC $NP $FG",
            ]
        } else {
            &[
                "$NP$FG",
                "$FG0",
                "($NP$FG)",
                "$NP $FG",
                "$NP-$FG",
                "($FG)",
                "$FG",
                "$NP($FG)",
                "$NP $NP-$FG",
            ]
        };
        self.src.pick(rules).to_string()
    }

    fn flag(&mut self) -> String {
        if self.src.chance(1, 2) {
            "true"
        } else {
            "false"
        }
        .into()
    }

    fn formats(&mut self) {
        self.space();
        self.out.push_str("<availableFormats>");
        if self.flaw("formats element") {
            self.element("other", "1");
        }
        let detailed = self.rich && self.src.chance(2, 3);
        let count = if detailed {
            self.src.range(12, 45)
        } else if self.src.chance(1, 60) {
            self.src.range(5, 40)
        } else {
            self.src.range(1, 4)
        };
        for _ in 0..count {
            self.space();
            let groups = self.src.range(1, 4);
            let mut pattern = String::new();
            let d = self.digit;
            for i in 0..groups {
                let n = self.src.range(1, 4);
                if i + 1 == groups && self.src.chance(1, 3) {
                    pattern.push_str(&format!("({d}{{{n},{}}})", n + self.src.range(1, 3)));
                } else if self.src.chance(1, 8) {
                    let c = self.class();
                    pattern.push_str(&format!("({c}{d}{{{n}}})"));
                } else {
                    pattern.push_str(&format!("({d}{{{n}}})"));
                }
            }
            if self.src.chance(if detailed { 2 } else { 1 }, 3) {
                pattern = self
                    .src
                    .pick(&["(\\d{3})(\\d{2,8})", "(\\d+)", "(\\d{2})(\\d+)"])
                    .to_string();
            }
            let groups = pattern.matches('(').count();
            let mut list = vec![("pattern", self.spread(&pattern))];
            if self.src.chance(1, 3) {
                let r = self.rule(false);
                list.push(("nationalPrefixFormattingRule", r));
            }
            if self.src.chance(1, 4) {
                let r = self.rule(true);
                list.push(("carrierCodeFormattingRule", r));
            }
            if self.src.chance(1, 4) {
                let f = self.flag();
                list.push(("nationalPrefixOptionalWhenFormatting", f));
            }
            if self.flaw("optional") {
                list.retain(|a| a.0 != "nationalPrefixOptionalWhenFormatting");
                let f = self.bad_flag();
                list.push(("nationalPrefixOptionalWhenFormatting", f));
            } else if self.flaw("format pattern") {
                list[0].1 = self.bad_pattern();
            } else if self.flaw("no pattern") {
                list.remove(0);
            } else if self.flaw("attribute") {
                list.push(("other", "1".into()));
            }
            self.out.push_str("<numberFormat");
            self.attrs(list);
            let gap = self.gap();
            self.out.push_str(gap);
            if self.flaw("empty format") {
                self.out.push_str("/>");
                continue;
            }
            self.out.push('>');
            let mut cuts = vec![self.out.len()];
            if detailed || self.src.chance(1, 2) {
                let levels = if detailed || self.src.chance(1, 40) {
                    9
                } else {
                    3
                };
                for _ in 0..self.src.range(1, levels) {
                    let l = if detailed {
                        let (a, b) = (self.src.digits(1), self.src.range(0, 8));
                        format!("{a}[{b}-{}]", self.src.range(b + 1, 9))
                    } else {
                        self.lead()
                    };
                    let l = self.spread(&l);
                    self.element("leadingDigits", &l);
                }
            } else if self.layout > 1 && self.src.chance(1, 12) {
                // Any number starts with nothing.
                self.space();
                self.out.push_str("<leadingDigits/>");
            }
            if self.flaw("format leadingDigits") {
                let p = self.bad_pattern();
                self.element("leadingDigits", &p);
            }
            let template = |d: &mut Self| {
                let mut t = String::new();
                if d.src.chance(1, 12) {
                    t.push_str(d.src.pick(&["0 ", "(", "9 ", "[", "\u{FF08}"]));
                }
                let shuffled = d.src.chance(1, 12) && groups > 1;
                for i in 1..=groups {
                    let g = match (shuffled, i) {
                        (true, 1) => 2,
                        (true, 2) => 1,
                        _ => i,
                    };
                    t.push_str(&format!("${g}"));
                    if i < groups {
                        t.push_str(d.src.pick(&[
                            " ", "-", "/", ".", " - ", "", ") ", " 15-", "\u{2013}", "] ",
                            "\u{A0}", " ~ ", "\u{3000}", "\u{30FC}", "\u{FF0F}", "x", "0", "5-",
                            "12",
                        ]));
                    }
                }
                t
            };
            let t = template(self);
            cuts.push(self.out.len());
            if !self.flaw("no format") {
                self.element("format", &t);
            }
            cuts.push(self.out.len());
            match self.src.below(5) {
                0 if self.worded && self.src.chance(1, 4) => {
                    let text = *self
                        .src
                        .pick(&["NA $1", "$1 NA", "na", "N/A", "NAN", "+$1", "$1", "A"]);
                    self.element("intlFormat", text);
                }
                0 => self.element("intlFormat", "NA"),
                1 => {
                    let t = template(self);
                    self.element("intlFormat", &t);
                }
                _ => (),
            }
            self.reorder(&cuts);
            if self.flaw("format element") {
                self.element("other", "1");
            }
            self.space();
            self.out.push_str("</numberFormat>");
        }
        self.space();
        self.out.push_str("</availableFormats>");
    }

    fn territory(&mut self, id: &str, code: u16, main: bool) {
        self.space();
        let mut list: Vec<(&str, String)> =
            vec![("id", id.into()), ("countryCode", code.to_string())];
        if self.flaw("no id") {
            list.remove(0);
        } else if self.flaw("no countryCode") {
            list.remove(1);
        } else if self.flaw("countryCode") {
            list[1].1 = self
                .src
                .pick(&["", "x", "65536", "-1", "1 ", "+44"][..5])
                .to_string();
        }
        if main || self.src.chance(1, 8) {
            list.push((
                "mainCountryForCode",
                if main { "true" } else { "false" }.into(),
            ));
        }
        if self.flaw("mainCountryForCode") {
            list.retain(|a| a.0 != "mainCountryForCode");
            let f = self.bad_flag();
            list.push(("mainCountryForCode", f));
        }
        if self.src.chance(1, 3) {
            let f = self.flag();
            list.push(("mobileNumberPortableRegion", f));
        }
        if self.flaw("mobileNumberPortableRegion") {
            list.retain(|a| a.0 != "mobileNumberPortableRegion");
            let f = self.bad_flag();
            list.push(("mobileNumberPortableRegion", f));
        }
        if self.src.chance(5, 6) {
            let p = *self.src.pick(&[
                "00",
                "011",
                "0(?:0|11)",
                "00[1-9]|000",
                "810",
                "119|00",
                "1[01]\\d?",
            ]);
            let p = self.spread(p);
            list.push(("internationalPrefix", p));
            if self.src.chance(1, 3) {
                list.push(("preferredInternationalPrefix", "00".into()));
            }
        }
        if self.flaw("internationalPrefix") {
            list.retain(|a| a.0 != "internationalPrefix");
            let p = self.bad_pattern();
            list.push(("internationalPrefix", p));
        }
        if self.src.chance(2, 3) {
            let np = *self.src.pick(&["0", "1", "8", "06", "0", "44"]);
            list.push(("nationalPrefix", np.into()));
        }
        if self.src.chance(1, 2) {
            let d = self.src.digit();
            let (p, t) = match self.src.below(14) {
                0 => ("0".to_string(), None),
                1 => ("0(1[25]|2\\d)?".into(), None),
                2 => ("0(\\d\\d)".into(), None),
                3 => ("0?(?:(1\\d)(?:9))?".into(), None),
                4 => (format!("([{d}-9]\\d{{4}})$|0"), Some(format!("{d}7$1"))),
                5 => ("0(?:(11)(15))?".into(), Some("9$1".into())),
                6 => (format!("{d}(\\d{{2}})"), Some("$1".into())),
                7 => ("(?:0|1(2)3)".into(), Some("4$1".into())),
                8 => ("0(1[0-4])?([5-9]\\d{3})".into(), Some("$2".into())),
                9 => ("0(\\d\\d)(9)?".into(), Some("8$2".into())),
                10 => ("0(1\\d)?(2\\d)?(3)?".into(), Some("$3$2".into())),
                11 => (format!("{d}(\\d{{2}})"), Some("$10".into())),
                12 => ("0(11)?(2[1-5])".into(), Some("$27".into())),
                _ => ("0|(?:1[0-35-9]|21)".into(), None),
            };
            let p = self.spread(&p);
            list.push(("nationalPrefixForParsing", p));
            if let Some(t) = t
                && self.src.chance(4, 5)
            {
                list.push(("nationalPrefixTransformRule", t));
            }
        }
        if self.flaw("nationalPrefixForParsing") {
            list.retain(|a| a.0 != "nationalPrefixForParsing");
            let p = self.bad_pattern();
            list.push(("nationalPrefixForParsing", p));
        }
        if self.src.chance(1, 3) {
            let l = self.lead();
            let l = self.spread(&l);
            list.push(("leadingDigits", l));
        }
        if self.flaw("leadingDigits") {
            list.retain(|a| a.0 != "leadingDigits");
            let p = self.bad_pattern();
            list.push(("leadingDigits", p));
        }
        if self.src.chance(1, 4) {
            let x = self
                .src
                .pick(&[
                    " x",
                    " ext ",
                    " # ",
                    ";ext=",
                    " доб. ",
                    " & ",
                    "<x>",
                    " \"x\" ",
                    "'",
                ])
                .to_string();
            list.push(("preferredExtnPrefix", x));
        }
        if self.src.chance(1, 4) {
            let r = self.rule(false);
            list.push(("nationalPrefixFormattingRule", r));
        }
        if self.src.chance(1, 6) {
            let r = self.rule(true);
            list.push(("carrierCodeFormattingRule", r));
        }
        if self.src.chance(1, 6) {
            let f = self.flag();
            list.push(("nationalPrefixOptionalWhenFormatting", f));
        }
        if self.flaw("territory optional") {
            list.retain(|a| a.0 != "nationalPrefixOptionalWhenFormatting");
            let f = self.bad_flag();
            list.push(("nationalPrefixOptionalWhenFormatting", f));
        } else if self.flaw("territory attribute") {
            list.push(("other", "1".into()));
        }
        self.out.push_str("<territory");
        self.attrs(list);
        let gap = self.gap();
        self.out.push_str(gap);
        if self.flaw("empty territory") {
            self.out.push_str("/>");
            return;
        }
        self.out.push('>');

        let mut cuts = vec![self.out.len()];
        if self.layout > 1 && self.src.chance(1, 12) {
            self.space();
            self.out.push_str("<references/>");
        } else if self.src.chance(1, 6) {
            self.space();
            let inner = *self.src.pick(&[
                "http://example.com/",
                "http://example.com/?a=1&amp;b=2",
                "<![CDATA[http://example.com/?a&b<c]]>",
                "<?format on?>&#65;<!-- </references> -->",
                "<references>1</references>",
            ]);
            self.out.push_str(&format!(
                "<references><sourceUrl>{inner}</sourceUrl><br/></references>"
            ));
        }
        cuts.push(self.out.len());
        if self.src.chance(4, 5) || self.flaw.is_some_and(|f| f.contains("format")) {
            self.formats();
        } else if self.layout > 1 && self.src.chance(1, 3) {
            self.space();
            self.out.push_str("<availableFormats/>");
        }

        cuts.push(self.out.len());

        // The types' numbers are among those of the region, most of the time.
        let mut general = Vec::new();
        let kinds = match self.src.chance(1, 4) {
            true => self.src.range(6, 12),
            false => self.src.range(1, 5),
        };
        let mut chosen: Vec<usize> = (0..12).collect();
        for i in (1..12).rev() {
            let j = self.src.below(i as u64 + 1) as usize;
            chosen.swap(i, j);
        }
        let layers = self.layered && self.src.chance(3, 4);
        if !layers {
            chosen.truncate(kinds as usize);
        }
        if !layers && self.src.chance(1, 3) {
            chosen.retain(|&k| k > 1);
            chosen.extend([0, 1]);
        }
        if chosen == [11] {
            chosen.push(0);
        }
        let mut patterns: Vec<String> = chosen.iter().map(|_| self.number()).collect();
        let size = self.src.range(2, 3) as usize;
        if layers {
            patterns = (0..patterns.len())
                .map(|i| patterns[i / size].clone())
                .collect();
        }
        general.extend(patterns.iter().cloned());
        if self.src.chance(1, 4) {
            general = vec!["\\d{3,12}".into()];
        } else if self.src.chance(1, 4) {
            general.pop();
            let n = self.number();
            general.push(n);
        }
        let general = general.join("|");
        let first = self.src.chance(3, 4);
        let without = self.flaw("no generalDesc");
        if first && !without {
            self.desc("generalDesc", Some(&general));
        }
        // The types may also overlap, so that their order matters.
        let of = match self.src.below(4) {
            _ if layers => 0,
            0 => 1,
            1 => patterns.len().min(2),
            _ => 0,
        };
        for (i, k) in chosen.iter().enumerate() {
            let p = match of {
                0 => &patterns[i],
                of => &patterns[self.src.below(of as u64) as usize],
            };
            self.alike = of != 0 || layers && i % size != 0;
            cuts.push(self.out.len());
            self.desc(KINDS[*k], Some(p));
            self.alike = false;
            if self.src.chance(1, 16) {
                self.space();
                let optional = *self.src.pick(&[
                    "<areaCodeOptional>a</areaCodeOptional>",
                    "<areaCodeOptional/>",
                ]);
                self.out.push_str(optional);
            }
        }
        if !first && !without {
            self.desc("generalDesc", Some(&general));
        }
        self.reorder(&cuts);
        if self.flaw("element") {
            let name = *self
                .src
                .pick(&["other", "shortCode", "territory", "format"]);
            self.element(name, "1");
        }
        self.space();
        if self.flaw("end tag") {
            self.out.push_str("</other>");
        } else {
            self.out.push_str("</territory>");
        }
    }

    pub fn document(mut self, max: u64) -> (String, Plan, bool) {
        if self.src.chance(1, 24) {
            self.out.push('\u{FEFF}');
        }
        match self.src.below(9) {
            5 => self.out.push_str(
                "<?xml version='1.0' encoding='utf-8' standalone=\"yes\"?>\r\n\
                 <!DOCTYPE phoneNumberMetadata SYSTEM \"a.dtd\">",
            ),
            4 => self.out.push_str("<?xml-stylesheet href=\"a.css\"?>\n"),
            3 => self
                .out
                .push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"),
            1 => self.out.push_str(" <!-- a comment -->\n"),
            2 => self.out.push_str(
                "<!DOCTYPE phoneNumberMetadata [\n<!ELEMENT territories (territory+)>\n]>\n",
            ),
            _ => (),
        }
        let root = match self.flaw("root") {
            true => *self
                .src
                .pick(&["metadata", "phoneNumberMetaData", "territories", "a"]),
            false => "phoneNumberMetadata",
        };
        self.out.push_str(&format!("<{root}>"));
        let about = |d: &mut Self| {
            if d.src.chance(1, 8) {
                d.space();
                let about = *d.src.pick(&[
                    "<about>something <b>else</b></about>",
                    "<about/>",
                    "<about at=\"territories\"><territory id=\"US\"/></about>",
                ]);
                d.out.push_str(about);
            }
        };
        about(&mut self);
        self.space();
        self.out.push_str("<territories>");
        let mut ids = Vec::new();
        let mut left: Vec<String> = IDS.iter().map(|s| s.to_string()).collect();
        let mut count = self.src.range(1, max);
        if self.many > 0 {
            count = self.many;
            left = crate::world::world()
                .model
                .terrs
                .iter()
                .map(|t| t.id.clone())
                .filter(|id| id != "001")
                .collect();
            // More than there are regions.
            for i in 0..count.saturating_sub(200) {
                left.push(format!(
                    "{}{}",
                    i % 10,
                    (b'A' + (i / 10 % 26) as u8) as char
                ));
            }
        }
        let mut spans = Vec::new();
        let mut codes: Vec<u16> = Vec::new();
        let mut mains: Vec<u16> = Vec::new();
        for _ in 0..count {
            if left.is_empty() {
                break;
            }
            if self.src.chance(1, 12) {
                self.space();
                let note = *self.src.pick(&[
                    "<note>about <territory id=\"US\"/> &amp; others</note>",
                    "<note/>",
                ]);
                self.out.push_str(note);
            }
            let global = self.src.chance(1, if self.many > 0 { 40 } else { 10 });
            let shared = if self.many > 0 { (15, 16) } else { (1, 2) };
            let code = if !codes.is_empty() && !global && self.src.chance(shared.0, shared.1) {
                *self.src.pick(&codes)
            } else {
                match self.src.below(3) {
                    0 => self.src.range(1, 9),
                    1 => self.src.range(10, 99),
                    _ if (!self.sized || self.mains) && self.src.chance(1, 16) => {
                        // More than countries have.
                        *self.src.pick(&[1000, 1024, 4096, 32768, 65535])
                    }
                    _ => self.src.range(100, 999),
                }
                .try_into()
                .unwrap()
            };
            let code = if self.tangled && code >= 10 && self.src.chance(1, 2) {
                code / 10
            } else if self.tangled && code < 100 && self.src.chance(1, 2) {
                code * 10 + self.src.below(10) as u16
            } else {
                code
            };
            // No country code starts with another.
            let c = code.to_string();
            if !self.tangled
                && ids.iter().any(|(_, other): &(String, u16)| {
                    let o = other.to_string();
                    o != c && (o.starts_with(&c) || c.starts_with(&o))
                })
            {
                continue;
            }
            if global {
                if ids.iter().any(|(_, c)| *c == code) {
                    continue;
                }
                let start = self.out.len();
                self.territory("001", code, false);
                spans.push(start..self.out.len());
                ids.push(("001".to_string(), code));
                continue;
            }
            if ids.iter().any(|(i, c)| *c == code && i == "001") {
                continue;
            }
            let id = left.remove(self.src.below(left.len() as u64) as usize);
            let main = (self.mains || !mains.contains(&code)) && self.src.chance(1, 3);
            if main {
                mains.push(code);
            }
            let start = self.out.len();
            self.territory(&id, code, main);
            spans.push(start..self.out.len());
            ids.push((id, code));
            codes.push(code);
        }
        self.space();
        self.out.push_str("</territories>");
        about(&mut self);
        self.space();
        self.out.push_str(&format!("</{root}>"));
        match self.src.below(16) {
            0..=3 => self.out.push('\n'),
            4 => self.out.push_str("\n<!-- the end -->\n<?a b?>"),
            _ => (),
        }
        (self.out, Plan { ids, spans }, self.flawed)
    }
}
