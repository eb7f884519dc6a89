//! Just enough JSON for replay and evidence files.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
use J::*;
impl J {
    pub fn get(&self, k: &str) -> &J {
        if let Obj(v) = self {
            for (n, j) in v {
                if n == k {
                    return j;
                }
            }
        }
        &Null
    }
    pub fn int(&self) -> i64 {
        match self {
            Int(i) => *i,
            Num(f) => *f as i64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        if let Arr(v) = self { v } else { &[] }
    }
    pub fn str(&self) -> &str {
        if let Str(s) = self { s } else { "" }
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        Obj(v.into_iter().map(|(k, j)| (k.to_string(), j)).collect())
    }
    pub fn s(x: &str) -> J {
        Str(x.to_string())
    }
    fn flat(&self) -> bool {
        match self {
            Arr(v) => v.iter().all(|x| !matches!(x, Arr(_) | Obj(_))),
            Obj(v) => v.iter().all(|(_, x)| !matches!(x, Arr(_) | Obj(_))) && v.len() > 0,
            _ => true,
        }
    }
    pub fn write(&self, o: &mut String, ind: usize) {
        match self {
            Null => o.push_str("null"),
            Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Int(i) => o.push_str(&i.to_string()),
            Num(f) => {
                if f.is_finite() {
                    o.push_str(&format!("{:?}", f))
                } else {
                    o.push_str("null")
                }
            }
            Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            Arr(v) => {
                let fl = self.flat();
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(if fl { ", " } else { "," });
                    }
                    if !fl {
                        nl(o, ind + 1);
                    }
                    x.write(o, ind + 1);
                }
                if !fl {
                    nl(o, ind);
                }
                o.push(']');
            }
            Obj(v) => {
                let fl = self.flat();
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(if fl { ", " } else { "," });
                    }
                    if !fl {
                        nl(o, ind + 1);
                    }
                    Str(k.clone()).write(o, 0);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                if !fl {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.write(&mut o, 0);
        o.push('\n');
        o
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b: Vec<char> = t.chars().collect();
        let mut p = 0;
        let j = val(&b, &mut p)?;
        Ok(j)
    }
}
fn nl(o: &mut String, n: usize) {
    o.push('\n');
    for _ in 0..n {
        o.push(' ');
    }
}
fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1;
    }
}
fn val(b: &[char], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    let e = |p: usize| Err(format!("JSON: unexpected input at {}", p));
    if *p >= b.len() {
        return e(*p);
    }
    match b[*p] {
        '{' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b.get(*p) == Some(&'}') {
                    *p += 1;
                    return Ok(Obj(v));
                }
                if b.get(*p) == Some(&',') {
                    *p += 1;
                    continue;
                }
                let Str(k) = val(b, p)? else { return e(*p) };
                ws(b, p);
                if b.get(*p) != Some(&':') {
                    return e(*p);
                }
                *p += 1;
                v.push((k, val(b, p)?));
            }
        }
        '[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                if b.get(*p) == Some(&']') {
                    *p += 1;
                    return Ok(Arr(v));
                }
                if b.get(*p) == Some(&',') {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p)?);
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            while *p < b.len() && b[*p] != '"' {
                if b[*p] == '\\' {
                    *p += 1;
                    match b.get(*p) {
                        Some('n') => s.push('\n'),
                        Some('u') => {
                            let h: String = b[*p + 1..(*p + 5).min(b.len())].iter().collect();
                            s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
                            *p += 4;
                        }
                        Some(c) => s.push(*c),
                        None => return e(*p),
                    }
                } else {
                    s.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            Ok(Str(s))
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_alphanumeric() || "+-.".contains(b[*p])) {
                *p += 1;
            }
            let w: String = b[st..*p].iter().collect();
            match &w[..] {
                "null" => Ok(Null),
                "true" => Ok(Bool(true)),
                "false" => Ok(Bool(false)),
                _ => w.parse::<i64>().map(Int).or_else(|_| w.parse::<f64>().map(Num)).or_else(|_| e(st)),
            }
        }
    }
}
