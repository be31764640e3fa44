//! A small independent XML reader: enough for metadata documents (elements,
//! attributes, text, comments, declarations, CDATA, character references and
//! the five entities every document has).

#[derive(Clone, Debug, Default)]
pub struct Element {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Element>,
    pub text: String,
}

impl Element {
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs
            .iter()
            .find(|(k, _)| k == name)
            .map(|(_, v)| v.as_str())
    }

    pub fn child(&self, name: &str) -> Option<&Element> {
        self.children.iter().find(|c| c.name == name)
    }
}

/// Replace the references to characters and entities.
fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let end = i + rest[i..].find(';').ok_or("unclosed reference")?;
        let name = &rest[i + 1..end];
        let code = name
            .strip_prefix("#x")
            .map(|h| u32::from_str_radix(h, 16))
            .or(name.strip_prefix('#').map(|d| d.parse()));
        out.push(match (name, code) {
            ("amp", _) => '&',
            ("lt", _) => '<',
            ("gt", _) => '>',
            ("quot", _) => '"',
            ("apos", _) => '\'',
            (_, Some(Ok(c))) => char::from_u32(c).ok_or("no character")?,
            _ => return Err(format!("unknown entity {name}")),
        });
        rest = &rest[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

pub fn parse(s: &str) -> Result<Element, String> {
    let b = s.as_bytes();
    let mut stack: Vec<Element> = vec![Element::default()];
    let mut i = 0;

    while i < b.len() {
        if b[i] != b'<' {
            let j = s[i..].find('<').map(|j| i + j).unwrap_or(b.len());
            let text = decode(&s[i..j])?;
            stack.last_mut().unwrap().text.push_str(&text);
            i = j;
        } else if s[i..].starts_with("<![CDATA[") {
            let j = i + s[i..].find("]]>").ok_or("unclosed CDATA")?;
            stack.last_mut().unwrap().text.push_str(&s[i + 9..j]);
            i = j + 3;
        } else if s[i..].starts_with("<!--") {
            i += s[i..].find("-->").ok_or("unclosed comment")? + 3;
        } else if s[i..].starts_with("<?") {
            i += s[i..].find("?>").ok_or("unclosed declaration")? + 2;
        } else if s[i..].starts_with("<!") {
            // DOCTYPE, possibly with an internal subset.
            let mut depth = 0;
            while i < b.len() {
                match b[i] {
                    b'[' => depth += 1,
                    b']' => depth -= 1,
                    b'>' if depth == 0 => break,
                    b'<' if s[i..].starts_with("<!--") => {
                        i += s[i..].find("-->").ok_or("unclosed comment")? + 2;
                    }
                    _ => (),
                }
                i += 1;
            }
            i += 1;
        } else if s[i..].starts_with("</") {
            let j = i + s[i..].find('>').ok_or("unclosed end tag")?;
            let name = s[i + 2..j].trim();
            let e = stack.pop().unwrap();
            if e.name != name {
                return Err(format!("mismatched {} / {}", e.name, name));
            }
            stack
                .last_mut()
                .ok_or("too many end tags")?
                .children
                .push(e);
            i = j + 1;
        } else {
            i += 1;
            let mut e = Element::default();
            let st = i;
            while !matches!(b[i], b' ' | b'\n' | b'\t' | b'\r' | b'>' | b'/') {
                i += 1;
            }
            e.name = s[st..i].to_string();
            loop {
                while b[i].is_ascii_whitespace() {
                    i += 1;
                }
                if b[i] == b'>' {
                    i += 1;
                    stack.push(e);
                    break;
                }
                if b[i] == b'/' {
                    i += 2;
                    stack.last_mut().unwrap().children.push(e);
                    break;
                }
                let st = i;
                while b[i] != b'=' && !b[i].is_ascii_whitespace() {
                    i += 1;
                }
                let key = s[st..i].to_string();
                while b[i] != b'"' && b[i] != b'\'' {
                    i += 1;
                }
                let q = b[i] as char;
                i += 1;
                let j = i + s[i..].find(q).ok_or("unclosed attribute")?;
                e.attrs.push((key, decode(&s[i..j])?));
                i = j + 1;
            }
        }
    }

    let root = stack.pop().unwrap();
    if !stack.is_empty() {
        return Err("unclosed element".into());
    }
    root.children.into_iter().next().ok_or("no root".into())
}
