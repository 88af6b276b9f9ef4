//! Generator of requests, aimed at the routes of a family.

use crate::form::*;
use crate::spec::*;
use crate::tape::Tape;
use crate::types::*;

#[derive(Debug, Clone)]
pub struct ReqKnobs {
    /// chance of damaging an instantiated path
    pub mutate: u32,
    /// chance that a placeholder text does not fit its type
    pub bad_ph: u32,
    /// weights: route's method, other method of the pattern, HEAD, GET,
    /// uniform, extension
    pub method_w: [u32; 6],
    pub bad_query: u32,
    pub any_query: u32,
    pub guard_fail: u32,
    pub guard_405: u32,
    pub bad_body: u32,
    pub stream_fail: u32,
    pub body_always: u32,
    pub odd_uri: u32,
    pub big_body: u32,
}

pub const RBASE: ReqKnobs = ReqKnobs {
    mutate: 25,
    bad_ph: 10,
    method_w: [60, 10, 8, 5, 12, 5],
    bad_query: 15,
    any_query: 25,
    guard_fail: 20,
    guard_405: 0,
    bad_body: 15,
    stream_fail: 6,
    body_always: 15,
    odd_uri: 6,
    big_body: 1,
};

pub fn req_knobs(prop: &str) -> ReqKnobs {
    let b = RBASE;
    match prop {
        "C01" => ReqKnobs { mutate: 45, method_w: [60, 12, 0, 8, 15, 5], odd_uri: 12, ..b },
        "C02" => ReqKnobs { bad_ph: 25, mutate: 12, method_w: [85, 5, 5, 0, 5, 0], ..b },
        "C03" => ReqKnobs { mutate: 15, method_w: [15, 5, 60, 10, 10, 0], bad_ph: 12, guard_fail: 15, ..b },
        "C04" => ReqKnobs { mutate: 8, bad_ph: 35, method_w: [12, 10, 12, 6, 40, 20], guard_fail: 5, ..b },
        "C05" => ReqKnobs { mutate: 20, method_w: [50, 10, 8, 5, 22, 5], guard_fail: 12, guard_405: 30, body_always: 60, ..b },
        "C06" => ReqKnobs { mutate: 5, bad_ph: 5, method_w: [88, 4, 4, 0, 4, 0], guard_fail: 22, guard_405: 15, body_always: 60, ..b },
        "C07" => ReqKnobs { mutate: 5, bad_ph: 5, method_w: [88, 4, 4, 0, 4, 0], bad_query: 30, any_query: 95, ..b },
        "C08" => ReqKnobs { mutate: 3, bad_ph: 3, method_w: [94, 0, 3, 0, 3, 0], bad_body: 30, stream_fail: 15, body_always: 90, big_body: 4, ..b },
        "C09" => ReqKnobs { mutate: 4, method_w: [92, 0, 4, 0, 4, 0], guard_fail: 8, body_always: 60, ..b },
        "C15" => ReqKnobs { mutate: 12, bad_ph: 10, method_w: [72, 8, 8, 2, 8, 2], ..b },
        "C17" => ReqKnobs { mutate: 40, bad_ph: 30, method_w: [45, 10, 10, 5, 20, 10], bad_query: 50, any_query: 60, guard_fail: 15, guard_405: 10, bad_body: 45, stream_fail: 15, body_always: 60, odd_uri: 20, big_body: 2 },
        "C20" => ReqKnobs { mutate: 8, bad_ph: 8, method_w: [84, 4, 6, 0, 4, 2], guard_fail: 8, stream_fail: 4, body_always: 75, ..b },
        "C18" => ReqKnobs { mutate: 10, bad_ph: 15, method_w: [75, 8, 8, 2, 5, 2], ..b },
        "C19" => ReqKnobs { mutate: 15, bad_ph: 15, guard_fail: 10, stream_fail: 0, odd_uri: 0, ..b },
        _ => b,
    }
}

fn path_char_ok(c: char) -> bool {
    matches!(c as u32, 0x21 | 0x24..=0x3B | 0x3D | 0x40..=0x5F | 0x61..=0x7A | 0x7C | 0x7E)
}
fn query_char_ok(c: char) -> bool {
    matches!(c as u32, 0x21 | 0x24..=0x3B | 0x3D | 0x3F..=0x7E) && c != '`' && c != '"' && c != '^' || c == '^'
}

const PATH_CHARS: &[char] = &[
    'a', 'b', '0', '1', '/', '.', '-', '_', '~', '%', '+', '*', '(', ')', '[', ']', '$', '^', '|', '\\', ':', ';', '=', '@', '!', ',', '\'', '&', 'A', 'Z', '9',
];

/// Incomplete, doubled and unusual escapes.
const ESCAPES: &[&str] = &[
    "%", "%%", "%4", "%zz", "%2%", "%ff", "%00", "%0a", "%2e%2e", "%252F", "%C3", "%E2%82%AC", "%u0041", "%2f", "%5C", "%7B", "%3F", "%23", "%3b", "%+1", "%C0%AF", "%F0%9F%98%80", "%EF%BB%BF",
];

fn any_text(t: &mut Tape, max: usize) -> String {
    let n = t.below(max + 1);
    let s: String = match t.below(5) {
        // of few characters, so that they repeat
        1 => {
            let few: Vec<char> = (0..1 + t.below(3)).map(|_| *t.pick(PATH_CHARS)).collect();
            (0..n).map(|_| *t.pick(&few)).collect()
        }
        2 => (0..1 + t.below(3)).map(|_| if t.pct(65) { t.pick(ESCAPES).to_string() } else { t.pick(PATH_CHARS).to_string() }).collect(),
        _ => (0..n).map(|_| *t.pick(PATH_CHARS)).collect(),
    };
    s.chars().filter(|c| *c != '/').collect()
}

/// Anything from one character to tens of thousands.
pub fn long_text(t: &mut Tape) -> String {
    let n = (1usize << t.below(15)) + t.below(5);
    let unit = *t.pick(&["a", "ab", "x%2F", "1", "A.", "%41", "+", "0"]);
    unit.chars().cycle().take(n).collect()
}

pub fn ph_text(t: &mut Tape, ty: PathTy, bad: u32) -> String {
    let bad = t.pct(bad);
    if t.pct(2) {
        return long_text(t);
    }
    let s: String = match (ty, bad) {
        (_, true) => {
            let pool = [
                "x", "-1", "256", "300", "4294967296", "99999999999999999999", "1.0", "+", "0x10", "1e3", "TRUE", "aB", "%41", "1%20", "%31", "8", "-32769", "70000", "*", "_", "00", "a%2Fb",
            ];
            if t.pct(25) {
                any_text(t, 6)
            } else {
                t.pick(&pool).to_string()
            }
        }
        (PathTy::Str, _) => match t.below(6) {
            0 => t.pick(&["x", "me", "a", "b", "users"]).to_string(),
            1 => t.pick(&["%41", "a+b", "%2F", "..", ".", "A", "%C3%A9", "a%20b", "=", "*"]).to_string(),
            2 => any_text(t, 4),
            _ => format!("v{}", t.below(100)),
        },
        (PathTy::U8, _) => t.pick(&["0", "7", "255", "42", "007", "+5", "13", "1"]).to_string(),
        (PathTy::U32, _) => t.pick(&["0", "7", "4294967295", "42", "00012", "+5", "123456"]).to_string(),
        (PathTy::I16, _) => t.pick(&["0", "-1", "-32768", "32767", "+12", "-0", "77"]).to_string(),
        (PathTy::Bool, _) => t.pick(&["true", "false"]).to_string(),
        (PathTy::Chr, _) => t.pick(&["a", "Z", "%", "7", "~", "+"]).to_string(),
        (PathTy::Odd, _) => t.pick(&["1", "77", "13", "0000000000000000000000009", "255"]).to_string(),
        (PathTy::Upper, _) => t.pick(&["A", "ZZ", "ABC", "HEAD"]).to_string(),
        (PathTy::Never, _) => "n".to_string(),
        (PathTy::U64, _) => t.pick(&["0", "18446744073709551615", "18446744073709551616", "42", "9007199254740993", "+7"]).to_string(),
        (PathTy::F64, _) => t.pick(&["0", "1.5", "-0", "1e3", ".5", "5.", "inf", "-infinity", "0.1", "1e-400", "+1", "123456789.125"]).to_string(),
        (PathTy::Ip, _) => t.pick(&["127.0.0.1", "::1", "1.2.3.4", "[::1]", "256.1.1.1", "::ffff:1.2.3.4", "1.2.3", "2001:db8::8"]).to_string(),
        (PathTy::Nz, _) => t.pick(&["1", "255", "0", "7", "+3", "256", "012"]).to_string(),
    };
    if s.is_empty() {
        "q".into()
    } else {
        s
    }
}

fn mutate_path(t: &mut Tape, path: String, pool: &[String]) -> String {
    let mut p = path;
    let n = 1 + t.weighted(&[75, 20, 5]);
    for _ in 0..n {
        let chars: Vec<char> = p.chars().collect();
        match t.below(17) {
            15 => {
                // an escape somewhere
                let i = 1 + t.below(chars.len().max(1));
                let i = p.char_indices().map(|x| x.0).nth(i).unwrap_or(p.len());
                p.insert_str(i, t.pick(ESCAPES));
            }
            0 => {
                if p.ends_with('/') {
                    p.pop();
                } else {
                    p.push('/');
                }
            }
            1 => p.push_str(&format!("/{}", t.pick(pool))),
            2 => {
                // drop a segment
                let mut parts: Vec<&str> = p.split('/').collect();
                if parts.len() > 1 {
                    let i = 1 + t.below(parts.len() - 1);
                    parts.remove(i);
                }
                p = parts.join("/");
            }
            3 => {
                // double a slash
                let idx: Vec<usize> = p.match_indices('/').map(|x| x.0).collect();
                if !idx.is_empty() {
                    let i = *t.pick(&idx);
                    p.insert(i, '/');
                }
            }
            4 => {
                // flip case of one letter
                let idx: Vec<usize> = (0..chars.len()).filter(|i| chars[*i].is_ascii_alphabetic()).collect();
                if !idx.is_empty() {
                    let i = *t.pick(&idx);
                    let mut c = chars;
                    c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
                    p = c.into_iter().collect();
                }
            }
            5 => {
                // percent-encode one character
                let idx: Vec<usize> = (0..chars.len()).filter(|i| chars[*i] != '/').collect();
                if !idx.is_empty() {
                    let i = *t.pick(&idx);
                    let mut s = String::new();
                    for (j, c) in chars.iter().enumerate() {
                        if i == j {
                            s.push_str(&format!("%{:02X}", *c as u32));
                        } else {
                            s.push(*c);
                        }
                    }
                    p = s;
                }
            }
            6 => p.push('*'),
            7 => p = format!("/{}{}", t.pick(pool), p),
            8 => {
                // replace one character by another
                if chars.len() > 1 {
                    let i = 1 + t.below(chars.len() - 1);
                    let mut c = chars;
                    c[i] = *t.pick(PATH_CHARS);
                    p = c.into_iter().collect();
                }
            }
            9 => {
                // delete one character
                if chars.len() > 1 {
                    let i = 1 + t.below(chars.len() - 1);
                    let mut c = chars;
                    c.remove(i);
                    p = c.into_iter().collect();
                }
            }
            10 => {
                // insert one character
                let i = 1 + t.below(chars.len().max(1));
                let mut c = chars;
                let i = i.min(c.len());
                c.insert(i, *t.pick(PATH_CHARS));
                p = c.into_iter().collect();
            }
            11 => p.push_str(t.pick(&["a", "b", "x", "/x/y", "//", "/."])),
            12 => {
                // replace a segment by an empty or pool one
                let mut parts: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
                if parts.len() > 1 {
                    let i = 1 + t.below(parts.len() - 1);
                    parts[i] = if t.pct(50) { t.pick(pool).clone() } else { String::new() };
                }
                p = parts.join("/");
            }
            13 => {
                // truncate
                let i = 1 + t.below(chars.len().max(1));
                p = chars.into_iter().take(i).collect();
            }
            14 => {
                // duplicate a segment
                let mut parts: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
                if parts.len() > 1 {
                    let i = 1 + t.below(parts.len() - 1);
                    let s = parts[i].clone();
                    parts.insert(i, s);
                }
                p = parts.join("/");
            }
            _ => {
                // swap two segments
                let mut parts: Vec<&str> = p.split('/').collect();
                if parts.len() > 2 {
                    let i = 1 + t.below(parts.len() - 1);
                    let j = 1 + t.below(parts.len() - 1);
                    parts.swap(i, j);
                }
                p = parts.join("/");
            }
        }
    }
    p
}

fn some_value(t: &mut Tape) -> String {
    if t.pct(2) {
        return long_text(t);
    }
    match t.below(6) {
        5 => {
            // runs of the characters that need care
            let n = 1 + t.below(5);
            (0..n).map(|_| *t.pick(&[" ", "  ", "+", "%", "&", "=", "a", "1", "é", "?", "#", "%20", "%2B", ";", ":"])).collect()
        }
        0 => t.below(1000).to_string(),
        1 => t.pick(&["", "x", "hello", "a b", "é", "&", "=", "+", "%", "a&b=c", "#", "日本", "\u{1F600}", "0", "4294967295", "4294967296", "-1", " 7"]).to_string(),
        2 => t.pick(&["42", "7", "0"]).to_string(),
        _ => any_text(t, 5),
    }
}

fn enc(t: &mut Tape, s: &str) -> String {
    match t.below(6) {
        // every character in a way of its own
        4 | 5 => s
            .bytes()
            .map(|b| match (t.below(3), b) {
                (0, b' ') => "+".to_string(),
                (0, b) if b.is_ascii_alphanumeric() || b"-._*!~:;,'()$@/?".contains(&b) => (b as char).to_string(),
                (1, b) => format!("%{:02x}", b),
                (_, b) => format!("%{:02X}", b),
            })
            .collect(),
        // everything percent-encoded, mixed case hex
        3 => s
            .bytes()
            .map(|b| if b % 2 == 0 { format!("%{:02x}", b) } else { format!("%{:02X}", b) })
            .collect(),
        2 => encode_component(s).replace('+', "%20"),
        _ => encode_component(s),
    }
}

fn extra_pairs(t: &mut Tape, n: usize, pairs: &mut Vec<(String, String)>) {
    for _ in 0..n {
        let k = if t.pct(15) {
            // repeat a known key
            t.pick(&["a", "b", "start", "count"]).to_string()
        } else {
            t.pick(&["k", "z", "x y", "é", "", "a[]", "K", "Start", "c", "_method"]).to_string()
        };
        let v = some_value(t);
        let i = t.below(pairs.len() + 1);
        pairs.insert(i, (k, v));
    }
}

/// A raw form-urlencoded text that usually decodes into `ty`.
pub fn form_text(t: &mut Tape, ty: QTy, bad: u32) -> String {
    let bad = t.pct(bad);
    let mut pairs: Vec<(String, String)> = Vec::new();
    match ty {
        QTy::Unit => {
            if !bad {
                return t.pick(&["", "", "&", "&&"]).to_string();
            }
            pairs.push(("a".into(), some_value(t)));
        }
        QTy::Page | QTy::OptPage => {
            if t.pct(75) {
                pairs.push(("start".into(), if bad { some_value(t) } else { t.below(5000).to_string() }));
            }
            if t.pct(60) {
                pairs.push(("count".into(), if bad { some_value(t) } else { t.below(100).to_string() }));
            }
        }
        QTy::Req | QTy::OptReq => {
            if !bad || t.pct(60) {
                pairs.push(("a".into(), if bad { some_value(t) } else { t.below(5000).to_string() }));
            }
            if !bad || t.pct(60) {
                pairs.push(("b".into(), some_value(t)));
            }
        }
        _ => {}
    }
    let extra = match ty {
        QTy::Pairs | QTy::Map | QTy::OptPairs if t.pct(3) => 20 + t.below(300),
        QTy::Pairs | QTy::Map | QTy::OptPairs => t.below(5),
        QTy::Unit => 0,
        _ => t.weighted(&[70, 20, 10]),
    };
    if extra > 10 {
        // too long for the tape
        let more = crate::tape::expand(t.raw(), 4000);
        extra_pairs(&mut Tape::new(&more), extra, &mut pairs);
    } else {
        extra_pairs(t, extra, &mut pairs);
    }
    if t.pct(15) {
        t.shuffle(&mut pairs);
    }
    let mut s = String::new();
    for (i, (k, v)) in pairs.iter().enumerate() {
        if i > 0 {
            s.push('&');
        }
        s.push_str(&enc(t, k));
        if !v.is_empty() || t.pct(60) {
            s.push('=');
            s.push_str(&enc(t, v));
        }
    }
    if t.pct(12) {
        // syntactic noise
        let noise = t.pick(&["&", "&&", "=", "&=", "%", "%4", "%zz", "%ff", "?", "/", "a=b=c", "+", "%00", "%20+", "+%20", "%2B+", "++", "%2", ";", "%C3", "%26", "%3D"]).to_string();
        match t.below(3) {
            0 => s.push_str(&noise),
            1 => s.insert_str(0, &noise),
            _ => {
                let cuts: Vec<usize> = s.char_indices().map(|x| x.0).collect();
                let at = if cuts.is_empty() { 0 } else { *t.pick(&cuts) };
                s.insert_str(at, &noise);
            }
        }
    }
    s
}

fn json_text(t: &mut Tape, b: &BodyTy, bad: u32) -> Vec<u8> {
    let bad = t.pct(bad);
    let mut s = match b {
        BodyTy::JsonPage => match t.below(5) {
            0 => "{}".to_string(),
            1 => format!("{{\"start\":{},\"count\":null}}", t.below(99)),
            2 => format!("{{ \"count\" : {} , \"start\":{}}}", t.below(99), t.below(99)),
            3 => format!("{{\"start\":{},\"x\":[1,2]}}", t.below(99)),
            _ => format!("[{},{}]", t.below(99), t.below(99)),
        },
        BodyTy::JsonReq => match t.below(3) {
            0 => format!("{{\"a\":{},\"b\":\"\\u00e9\\n\"}}", t.below(99)),
            1 => format!("\n{{\"b\":\"é\",\"a\":{}}}\t", t.below(99)),
            _ => format!("{{\"a\":{},\"b\":\"x\"}}", t.below(99)),
        },
        _ => gen_json(t, 3),
    };
    if bad {
        match t.below(8) {
            0 => {
                s.pop();
            }
            1 => s.push('x'),
            2 => s = s.replace(':', ";"),
            3 => s.clear(),
            4 => s = "{\"a\":1}{\"a\":2}".into(),
            5 => s = "[".repeat(200),
            6 => s = format!("{}{}", s, s),
            _ => {
                let mut b = s.into_bytes();
                b.push(0xff);
                return b;
            }
        }
    }
    s.into_bytes()
}

fn gen_json(t: &mut Tape, depth: u32) -> String {
    match t.below(if depth == 0 { 5 } else { 7 }) {
        0 => t.pick(&["null", "true", "false"]).to_string(),
        1 => t.below(100000).to_string(),
        2 => t.pick(&["-1", "0.5", "1e10", "18446744073709551615", "-0.0", "1E-3"]).to_string(),
        3 => t.pick(&["\"\"", "\"x\"", "\"é\"", "\"\\u0041\\n\"", "\"\\ud83d\\ude00\""]).to_string(),
        4 => "\"plain text\"".into(),
        5 => {
            let n = t.below(4);
            let v: Vec<String> = (0..n).map(|_| gen_json(t, depth - 1)).collect();
            format!("[{}]", v.join(if t.pct(30) { " , " } else { "," }))
        }
        _ => {
            let n = t.below(4);
            let v: Vec<String> = (0..n)
                .map(|i| format!("\"k{}\":{}", if t.pct(20) { 0 } else { i }, gen_json(t, depth - 1)))
                .collect();
            format!("{{{}}}", v.join(","))
        }
    }
}

pub fn chunk_up(t: &mut Tape, bytes: &[u8], fail: bool) -> BodyCase {
    let mut chunks = Vec::new();
    let mut i = 0;
    let style = t.below(4);
    while i < bytes.len() {
        let left = bytes.len() - i;
        let n = match style {
            0 => left,
            1 => 1 + t.below(left.min(8)),
            2 if bytes.len() <= 64 => 1,
            _ => 1 + t.below(left),
        };
        // zero-length chunks may occur anywhere
        if t.pct(8) {
            chunks.push((0, vec![]));
        }
        let pend = t.weighted(&[70, 20, 7, 3]) as u8;
        chunks.push((pend, bytes[i..i + n].to_vec()));
        i += n;
    }
    BodyCase {
        chunks,
        fail,
        end_pend: t.weighted(&[85, 10, 5]) as u8,
    }
}

pub fn gen_body_bytes(t: &mut Tape, b: Option<&BodyTy>, k: &ReqKnobs) -> Vec<u8> {
    match b {
        Some(BodyTy::JsonVal) | Some(BodyTy::JsonPage) | Some(BodyTy::JsonReq) => {
            if t.pct(k.big_body) {
                let n = 1000 + t.below(60000);
                return format!("\"{}\"", "ab".repeat(n)).into_bytes();
            }
            json_text(t, b.unwrap(), k.bad_body)
        }
        Some(BodyTy::Form(q)) => form_text(t, *q, k.bad_body).into_bytes(),
        _ => {
            if t.pct(k.big_body) {
                let n = 1000 + t.below(100_000);
                return (0..n).map(|i| (i % 251) as u8).collect();
            }
            match t.below(4) {
                0 => vec![],
                1 => b"hello world".to_vec(),
                2 => (0..t.below(40)).map(|_| t.below(256) as u8).collect(),
                _ => gen_json(t, 2).into_bytes(),
            }
        }
    }
}

fn guard_ids(fam: &Family) -> Vec<u8> {
    let mut ids: Vec<u8> = fam
        .routers
        .iter()
        .flat_map(|r| r.variants.iter())
        .flat_map(|v| v.fields.iter())
        .filter_map(|f| match f.kind {
            Kind::Guard { id, .. } => Some(id),
            _ => None,
        })
        .collect();
    ids.sort();
    ids.dedup();
    ids
}

fn reachable(fam: &Family, i: usize, out: &mut Vec<usize>) {
    if out.contains(&i) {
        return;
    }
    out.push(i);
    for v in &fam.routers[i].variants {
        for f in &v.fields {
            if let Kind::Forward(Fwd::Router(j)) = f.kind {
                reachable(fam, j, out);
            }
        }
    }
}

const EXT_METHODS: &[&str] = &[
    "PROPFIND", "get", "Get", "M-SEARCH", "PURGE", "GETX", "HEA", "X", "MKCOL", "!", "GET1", "options", "LONGEXTENSIONMETHODNAME",
];

fn cut(mut s: String, mut n: usize) -> String {
    while n < s.len() && !s.is_char_boundary(n) {
        n -= 1;
    }
    s.truncate(n);
    s
}

pub fn gen_req(t: &mut Tape, fam: &Family, k: &ReqKnobs) -> ReqCase {
    let main = t.below(fam.mains.len());
    let mut reach = Vec::new();
    reachable(fam, fam.mains[main], &mut reach);
    let ri = if reach.len() > 1 && t.pct(45) {
        *t.pick(&reach)
    } else {
        reach[0]
    };
    let router = &fam.routers[ri];
    let routed: Vec<(&Variant, &Route)> = router
        .variants
        .iter()
        .flat_map(|v| v.routes.iter().map(move |r| (v, r)))
        .collect();
    let mut pool: Vec<String> = vec!["a".into(), "b".into(), "x".into(), "".into(), "users".into(), "*".into(), "0".into()];
    for (_, r) in &routed {
        for s in &r.pattern.segs {
            if let Seg::Lit(l) = s {
                if l.chars().all(path_char_ok) {
                    pool.push(l.clone());
                }
            }
        }
    }
    let target = if routed.is_empty() || t.pct(5) {
        None
    } else {
        Some(*t.pick(&routed))
    };
    let mut form = UriForm::Origin;
    let mut path = match target {
        None => {
            let n = t.range(1, 3);
            let mut p = String::new();
            for _ in 0..n {
                p.push('/');
                let s = if t.pct(60) { t.pick(&pool).clone() } else { any_text(t, 4) };
                p.push_str(&s);
            }
            p
        }
        Some((_, r)) if r.pattern.is_star() => "*".to_string(),
        Some((v, r)) => {
            let mut p = String::new();
            for s in &r.pattern.segs {
                p.push('/');
                match s {
                    Seg::Lit(l) => p.push_str(l),
                    Seg::Ph(n) => p.push_str(&ph_text(t, v.path_ty(n), k.bad_ph)),
                    Seg::Rest(n) => {
                        let s = match t.below(6) {
                            0 => String::new(),
                            1 => t.pick(&["x/y", "/", "//", "a/", "/a", "a/b/c", "..", "./x", "%2F/x"]).to_string(),
                            _ => ph_text(t, v.path_ty(n), k.bad_ph),
                        };
                        p.push_str(&s);
                    }
                }
            }
            p
        }
    };
    if t.pct(k.mutate) {
        path = mutate_path(t, path, &pool);
    }
    path = path.chars().filter(|c| path_char_ok(*c)).collect();
    // 65534 bytes is all an URI can have
    path = cut(path, 30_000);
    // `*` is only a request target of its own; any other path starts with `/`
    if path != "*" && !path.starts_with('/') {
        path.insert(0, '/');
    }

    let method = match t.weighted(&k.method_w) {
        0 => target.map(|x| METHODS[x.1.method]).unwrap_or("GET").to_string(),
        1 => match target {
            Some((_, r)) => {
                let ms = crate::model::methods_for(router, &r.pattern.key());
                METHODS[t.pick(&ms).0].to_string()
            }
            None => "POST".into(),
        },
        2 => "HEAD".into(),
        3 => "GET".into(),
        4 => METHODS[t.below(9)].to_string(),
        _ => t.pick(EXT_METHODS).to_string(),
    };

    // the variant that will be asked decides which query and body make sense
    let mut qty = None;
    let mut bty = None;
    if let Some((v, _)) = target {
        for f in &v.fields {
            match &f.kind {
                Kind::Query(q) => qty = Some(*q),
                Kind::Body(b) => bty = Some(b.clone()),
                _ => {}
            }
        }
    }
    let query = if let Some(q) = qty {
        if t.pct(12) {
            None
        } else {
            Some(form_text(t, q, k.bad_query))
        }
    } else if t.pct(k.any_query) {
        let q = *t.pick(ALL_QTYS);
        Some(form_text(t, q, k.bad_query))
    } else {
        None
    }
    .map(|q| cut(q.chars().filter(|c| query_char_ok(*c)).collect::<String>(), 34_000));

    if t.pct(k.odd_uri) {
        match t.below(4) {
            0 => form = UriForm::Absolute("example.com".into()),
            1 => form = UriForm::Absolute("localhost:8080".into()),
            2 => form = UriForm::Authority("example.com:80".into()),
            _ => {
                form = UriForm::Absolute("h".into());
                path = String::new();
            }
        }
    }
    if path == "*" {
        form = UriForm::Origin;
    }
    let query = if path == "*" && form == UriForm::Origin { None } else { query };

    let mut headers = Vec::new();
    for id in guard_ids(fam) {
        if t.pct(80) {
            let polls = t.weighted(&[55, 25, 12, 8]);
            let outcome = if t.pct(k.guard_fail) {
                if t.pct(k.guard_405) {
                    "h405"
                } else {
                    *t.pick(&["err", "h401", "h403", "h404", "h500", "h400"])
                }
            } else {
                "ok"
            };
            let val = t.pick(&["v", "", "x:y", "val ue", "1"]).to_string();
            headers.push((format!("x-g{}", id), format!("{}:{}:{}", polls, outcome, val)));
        }
    }
    if t.pct(60) {
        let outcome = if t.pct(k.guard_fail) {
            if t.pct(k.guard_405) {
                "h405"
            } else {
                *t.pick(&["err", "h401", "h404", "h500"])
            }
        } else {
            "ok"
        };
        headers.push(("x-spy".into(), format!("{}:{}:s", t.below(3), outcome)));
    }
    let extra = t.weighted(&[58, 24, 15, 3]);
    let extra = if extra == 3 { 10 + t.below(60) } else { extra };
    for _ in 0..extra {
        let h = t.pick(&[
            ("content-type", "text/plain"),
            ("content-type", "application/json"),
            ("content-length", "3"),
            ("accept", "*/*"),
            ("host", "example.com"),
            ("x-http-method-override", "DELETE"),
            ("transfer-encoding", "chunked"),
            ("cookie", "a=b; c=d"),
            ("x-forwarded-for", "1.2.3.4"),
            ("x-original-url", "/admin"),
            ("expect", "100-continue"),
            ("cookie", "c=d"),
            ("x-empty", ""),
            ("content-encoding", "gzip"),
            ("range", "bytes=0-1"),
            ("connection", "upgrade"),
            ("upgrade", "websocket"),
            ("content-length", "0"),
            ("content-length", "18446744073709551615"),
            ("content-type", "application/x-www-form-urlencoded"),
            ("content-type", "application/json; charset=utf-16"),
            ("content-type", "multipart/form-data; boundary=a"),
            ("accept", "text/html;q=0"),
            ("accept-encoding", "gzip"),
            ("if-none-match", "*"),
            ("max-forwards", "0"),
            ("x-http-method-override", "GET"),
            ("x-http-method-override", "POST"),
            ("x-http-method", "HEAD"),
            ("x-method-override", "PUT"),
            ("x-rewrite-url", "/a"),
            ("x-forwarded-prefix", "/a"),
            ("access-control-request-method", "PUT"),
            ("origin", "null"),
            ("authorization", "Basic Og=="),
            ("x-latin", "caf\u{e9}"),
            ("accept", "\u{fc}\u{2603}"),
            ("cookie", "\u{e9}=\u{ff}; b=\u{1f600}"),
            ("referer", "http://h/\u{fc}?\u{fc}"),
            ("user-agent", "a \"b\" (c; d)\t\\"),
            ("connection", "keep-alive, x-a"),
            ("x-a", "{}"),
            ("x-long", LONG_VALUE),
        ]);
        headers.push((h.0.into(), h.1.into()));
    }
    t.shuffle(&mut headers);

    let body = if bty.is_some() || t.pct(k.body_always) {
        let bytes = gen_body_bytes(t, bty.as_ref(), k);
        let fail = t.pct(k.stream_fail);
        chunk_up(t, &bytes, fail)
    } else {
        BodyCase {
            chunks: vec![],
            fail: false,
            end_pend: 0,
        }
    };
    ReqCase {
        main,
        method,
        form,
        path,
        query,
        version: t.weighted(&[80, 10, 10]) as u8,
        headers,
        body,
        ctx: format!("s{}", t.below(1000)),
    }
}

/// The same request with other readiness and chunk boundaries.
pub fn reschedule(t: &mut Tape, r: &ReqCase) -> ReqCase {
    let mut n = r.clone();
    for h in n.headers.iter_mut() {
        if h.0.starts_with("x-g") || h.0 == "x-spy" {
            if let Some(i) = h.1.find(':') {
                h.1 = format!("{}{}", t.below(5), &h.1[i..]);
            }
        }
    }
    n.body = chunk_up(t, &r.body.bytes(), r.body.fail);
    n
}

const LONG_VALUE: &str = "abcdefghijklmnopqrstuvwxyz, 0123456789; abcdefghijklmnopqrstuvwxyz, 0123456789; abcdefghijklmnopqrstuvwxyz, 0123456789; abcdefghijklmnopqrstuvwxyz, 0123456789; abcdefghijklmnopqrstuvwxyz, 0123456789; abcdefghijklmnopqrstuvwxyz";
