//! Minimal JSON writing.
pub fn esc(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn s(v: &str) -> String {
    let mut o = String::with_capacity(v.len() + 2);
    esc(&mut o, v);
    o
}

pub fn arr<I: IntoIterator<Item = String>>(items: I) -> String {
    let mut o = String::from("[");
    for (i, it) in items.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&it);
    }
    o.push(']');
    o
}

pub fn obj(items: &[(&str, String)]) -> String {
    let mut o = String::from("{");
    for (i, (k, v)) in items.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        esc(&mut o, k);
        o.push(':');
        o.push_str(v);
    }
    o.push('}');
    o
}
