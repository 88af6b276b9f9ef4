//! Independent model of form-urlencoded decoding and of the query target
//! types used by generated declarations.

use serde::{Deserialize, Serialize};

pub fn parse_pairs(raw: &[u8]) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for part in raw.split(|b| *b == b'&') {
        if part.is_empty() {
            continue;
        }
        let (k, v) = match part.iter().position(|b| *b == b'=') {
            Some(i) => (&part[..i], &part[i + 1..]),
            None => (part, &part[part.len()..]),
        };
        out.push((decode(k), decode(v)));
    }
    out
}

fn decode(s: &[u8]) -> String {
    let mut out = Vec::new();
    let mut i = 0;
    let hex = |b: u8| (b as char).to_digit(16).map(|d| d as u8);
    while i < s.len() {
        match s[i] {
            b'+' => out.push(b' '),
            b'%' if i + 2 < s.len() && hex(s[i + 1]).is_some() && hex(s[i + 2]).is_some() => {
                out.push(hex(s[i + 1]).unwrap() * 16 + hex(s[i + 2]).unwrap());
                i += 2;
            }
            b => out.push(b),
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

pub fn encode_component(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'*' | b'-' | b'.' | b'_' => o.push(b as char),
            b' ' => o.push('+'),
            _ => o.push_str(&format!("%{:02X}", b)),
        }
    }
    o
}

/// Target types of `#[query_params]` fields and of `HtmlForm<_>` bodies.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum QTy {
    /// `Vec<(String, String)>`
    Pairs,
    /// `()`: only the empty query decodes
    Unit,
    /// `{ #[serde(default)] start: u32, count: Option<u32> }`
    Page,
    /// `{ a: u32, b: String }`, both required
    Req,
    /// `BTreeMap<String, String>`
    Map,
    /// `Option<Req>`
    OptReq,
    /// `Option<Page>`
    OptPage,
    /// `Option<Vec<(String, String)>>`
    OptPairs,
}

pub const ALL_QTYS: &[QTy] = &[
    QTy::Pairs,
    QTy::Unit,
    QTy::Page,
    QTy::Req,
    QTy::Map,
    QTy::OptReq,
    QTy::OptPage,
    QTy::OptPairs,
];
pub const FORM_QTYS: &[QTy] = &[QTy::Pairs, QTy::Page, QTy::Req, QTy::Map];

pub fn show_pairs<'a>(ps: impl Iterator<Item = (&'a String, &'a String)>) -> String {
    let v: Vec<String> = ps.map(|(k, v)| format!("{:?}={:?}", k, v)).collect();
    format!("[{}]", v.join(","))
}
pub fn show_page(start: u32, count: Option<u32>) -> String {
    format!("Page({},{:?})", start, count)
}
pub fn show_req(a: u32, b: &str) -> String {
    format!("Req({},{:?})", a, b)
}

impl QTy {
    pub fn rust(self) -> &'static str {
        match self {
            QTy::Pairs => "Vec<(String, String)>",
            QTy::Unit => "()",
            QTy::Page => "hdv_rt::Page",
            QTy::Req => "hdv_rt::Req",
            QTy::Map => "std::collections::BTreeMap<String, String>",
            QTy::OptReq => "Option<hdv_rt::Req>",
            QTy::OptPage => "Option<hdv_rt::Page>",
            QTy::OptPairs => "Option<Vec<(String, String)>>",
        }
    }
    /// Expected decoding of raw bytes; `Err(())` when decoding must fail.
    pub fn decode(self, raw: &[u8]) -> Result<String, ()> {
        let pairs = parse_pairs(raw);
        let opt = |t: QTy| {
            if pairs.is_empty() {
                Ok("None".to_string())
            } else {
                t.decode(raw).map(|s| format!("Some({})", s))
            }
        };
        match self {
            QTy::Pairs => Ok(show_pairs(pairs.iter().map(|(a, b)| (a, b)))),
            QTy::Unit => {
                if pairs.is_empty() {
                    Ok("()".into())
                } else {
                    Err(())
                }
            }
            QTy::Map => {
                let m: std::collections::BTreeMap<String, String> = pairs.into_iter().collect();
                Ok(show_pairs(m.iter()))
            }
            QTy::Page => {
                let mut start = None;
                let mut count = None;
                for (k, v) in &pairs {
                    let slot = match k.as_str() {
                        "start" => &mut start,
                        "count" => &mut count,
                        _ => continue,
                    };
                    if slot.is_some() {
                        return Err(());
                    }
                    *slot = Some(v.parse::<u32>().map_err(|_| ())?);
                }
                Ok(show_page(start.unwrap_or(0), count))
            }
            QTy::Req => {
                let mut a = None;
                let mut b = None;
                for (k, v) in &pairs {
                    match k.as_str() {
                        "a" => {
                            if a.is_some() {
                                return Err(());
                            }
                            a = Some(v.parse::<u32>().map_err(|_| ())?)
                        }
                        "b" => {
                            if b.is_some() {
                                return Err(());
                            }
                            b = Some(v.clone())
                        }
                        _ => {}
                    }
                }
                match (a, b) {
                    (Some(a), Some(b)) => Ok(show_req(a, &b)),
                    _ => Err(()),
                }
            }
            QTy::OptReq => opt(QTy::Req),
            QTy::OptPage => opt(QTy::Page),
            QTy::OptPairs => opt(QTy::Pairs),
        }
    }
}
