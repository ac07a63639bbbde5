use std::fmt::Write;

/// Just enough JSON for replay files, findings and evidence.
#[derive(Debug, Clone, PartialEq)]
pub enum Json {
    Null,
    Bool(bool),
    Int(i128),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

impl From<&str> for Json {
    fn from(s: &str) -> Json {
        Json::Str(s.to_string())
    }
}
impl From<String> for Json {
    fn from(s: String) -> Json {
        Json::Str(s)
    }
}
impl From<u64> for Json {
    fn from(s: u64) -> Json {
        Json::Int(s as i128)
    }
}

impl Json {
    pub fn obj(kv: Vec<(&str, Json)>) -> Json {
        Json::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&Json> {
        match self {
            Json::Obj(o) => o.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            Json::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            Json::Int(i) => Some(*i as u64),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[Json]> {
        match self {
            Json::Arr(a) => Some(a),
            _ => None,
        }
    }

    pub fn render(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }

    fn write(&self, s: &mut String, ind: usize) {
        match self {
            Json::Null => s.push_str("null"),
            Json::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            Json::Int(i) => {
                let _ = write!(s, "{i}");
            }
            Json::Num(f) => {
                let _ = write!(s, "{f:.3}");
            }
            Json::Str(t) => quote(t, s),
            Json::Arr(a) => {
                if a.iter().all(|x| matches!(x, Json::Int(_))) {
                    s.push('[');
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            s.push(',');
                        }
                        x.write(s, ind);
                    }
                    s.push(']');
                } else {
                    s.push_str("[\n");
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            s.push_str(",\n");
                        }
                        s.push_str(&"  ".repeat(ind + 1));
                        x.write(s, ind + 1);
                    }
                    s.push('\n');
                    s.push_str(&"  ".repeat(ind));
                    s.push(']');
                }
            }
            Json::Obj(o) => {
                s.push_str("{\n");
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        s.push_str(",\n");
                    }
                    s.push_str(&"  ".repeat(ind + 1));
                    quote(k, s);
                    s.push_str(": ");
                    v.write(s, ind + 1);
                }
                s.push('\n');
                s.push_str(&"  ".repeat(ind));
                s.push('}');
            }
        }
    }

    pub fn parse(t: &str) -> Result<Json, String> {
        let c: Vec<char> = t.chars().collect();
        let mut p = 0;
        let v = parse(&c, &mut p)?;
        ws(&c, &mut p);
        if p != c.len() {
            return Err(format!("trailing text at {p}"));
        }
        Ok(v)
    }
}

fn quote(t: &str, s: &mut String) {
    s.push('"');
    for ch in t.chars() {
        match ch {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(s, "\\u{:04x}", c as u32);
            }
            c => s.push(c),
        }
    }
    s.push('"');
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1;
    }
}

fn parse(c: &[char], p: &mut usize) -> Result<Json, String> {
    ws(c, p);
    match c.get(*p) {
        None => Err("eof".into()),
        Some('{') => {
            *p += 1;
            let mut o = Vec::new();
            loop {
                ws(c, p);
                if c.get(*p) == Some(&'}') {
                    *p += 1;
                    return Ok(Json::Obj(o));
                }
                let k = match parse(c, p)? {
                    Json::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(c, p);
                if c.get(*p) != Some(&':') {
                    return Err("colon".into());
                }
                *p += 1;
                o.push((k, parse(c, p)?));
                ws(c, p);
                if c.get(*p) == Some(&',') {
                    *p += 1;
                }
            }
        }
        Some('[') => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(c, p);
                if c.get(*p) == Some(&']') {
                    *p += 1;
                    return Ok(Json::Arr(a));
                }
                a.push(parse(c, p)?);
                ws(c, p);
                if c.get(*p) == Some(&',') {
                    *p += 1;
                }
            }
        }
        Some('"') => {
            *p += 1;
            let mut s = String::new();
            loop {
                match c.get(*p) {
                    None => return Err("string".into()),
                    Some('"') => {
                        *p += 1;
                        return Ok(Json::Str(s));
                    }
                    Some('\\') => {
                        *p += 1;
                        match c.get(*p) {
                            Some('n') => s.push('\n'),
                            Some('t') => s.push('\t'),
                            Some('r') => s.push('\r'),
                            Some('u') => {
                                let h: String = c[*p + 1..*p + 5].iter().collect();
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).unwrap_or('?'));
                                *p += 4;
                            }
                            Some(x) => s.push(*x),
                            None => return Err("escape".into()),
                        }
                        *p += 1;
                    }
                    Some(x) => {
                        s.push(*x);
                        *p += 1;
                    }
                }
            }
        }
        Some(_) => {
            let st = *p;
            while *p < c.len() && !matches!(c[*p], ',' | ']' | '}' | ':') && !c[*p].is_whitespace() {
                *p += 1;
            }
            let w: String = c[st..*p].iter().collect();
            match w.as_str() {
                "null" => Ok(Json::Null),
                "true" => Ok(Json::Bool(true)),
                "false" => Ok(Json::Bool(false)),
                w => w
                    .parse::<i128>()
                    .map(Json::Int)
                    .or_else(|_| w.parse::<f64>().map(Json::Num))
                    .map_err(|e| format!("{w}: {e}")),
            }
        }
    }
}
