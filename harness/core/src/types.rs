//! Path-segment types used by generated declarations, with the parse function
//! the model uses (the standard `FromStr` of the same type).

use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fmt;
use std::marker::PhantomData;
use std::str::FromStr;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum PathTy {
    Str,
    U8,
    U32,
    I16,
    Bool,
    Chr,
    Odd,
    Upper,
    Never,
    U64,
    F64,
    Ip,
    Nz,
}

pub const ALL_PATH_TYS: &[PathTy] = &[
    PathTy::Str,
    PathTy::U8,
    PathTy::U32,
    PathTy::I16,
    PathTy::Bool,
    PathTy::Chr,
    PathTy::Odd,
    PathTy::Upper,
    PathTy::Never,
    PathTy::U64,
    PathTy::F64,
    PathTy::Ip,
    PathTy::Nz,
];

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PErr(pub String);
impl fmt::Display for PErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for PErr {}

macro_rules! custom {
    ($name:ident, $f:expr) => {
        /// Neither `Sync`, nor `Debug`, nor `Clone`: nothing of that is asked for.
        pub struct $name(pub String, PhantomData<Cell<u8>>);
        impl $name {
            /// A decoy: only the trait's function counts.
            #[allow(clippy::should_implement_trait)]
            pub fn from_str(_: &str) -> Result<Self, PErr> {
                Err(PErr("the inherent from_str was called".to_string()))
            }
        }
        impl FromStr for $name {
            type Err = PErr;
            fn from_str(s: &str) -> Result<Self, PErr> {
                let f: fn(&str) -> bool = $f;
                if f(s) {
                    Ok($name(s.to_string(), PhantomData))
                } else {
                    Err(PErr(format!("{}: bad value {:?}", stringify!($name), s)))
                }
            }
        }
    };
}
custom!(Odd, |s| !s.is_empty()
    && s.len() < 30
    && s.bytes().all(|b| b.is_ascii_digit())
    && (s.as_bytes()[s.len() - 1] - b'0') % 2 == 1);
custom!(Upper, |s| !s.is_empty() && s.bytes().all(|b| b.is_ascii_uppercase()));
custom!(Never, |_| false);

impl PathTy {
    pub fn rust(self) -> &'static str {
        match self {
            PathTy::Str => "String",
            PathTy::U8 => "u8",
            PathTy::U32 => "u32",
            PathTy::I16 => "i16",
            PathTy::Bool => "bool",
            PathTy::Chr => "char",
            PathTy::Odd => "hdv_rt::Odd",
            PathTy::Upper => "hdv_rt::Upper",
            PathTy::Never => "hdv_rt::Never",
            PathTy::U64 => "u64",
            PathTy::F64 => "f64",
            PathTy::Ip => "std::net::IpAddr",
            PathTy::Nz => "std::num::NonZeroU8",
        }
    }
    /// Tag of the type's `FromStr` error.
    pub fn err_tag(self) -> &'static str {
        match self {
            PathTy::Str => "never",
            PathTy::U8 | PathTy::U32 | PathTy::I16 | PathTy::U64 | PathTy::Nz => "int",
            PathTy::Bool => "bool",
            PathTy::Chr => "char",
            PathTy::Odd | PathTy::Upper | PathTy::Never => "custom",
            PathTy::F64 => "float",
            PathTy::Ip => "addr",
        }
    }
    pub fn parse(self, s: &str) -> Result<String, String> {
        fn p<T: FromStr>(s: &str, f: impl Fn(T) -> String) -> Result<String, String>
        where
            T::Err: fmt::Display,
        {
            T::from_str(s).map(f).map_err(|e| e.to_string())
        }
        match self {
            PathTy::Str => Ok(s.to_string()),
            PathTy::U8 => p::<u8>(s, |v| v.to_string()),
            PathTy::U32 => p::<u32>(s, |v| v.to_string()),
            PathTy::I16 => p::<i16>(s, |v| v.to_string()),
            PathTy::Bool => p::<bool>(s, |v| v.to_string()),
            PathTy::Chr => p::<char>(s, |v| v.to_string()),
            PathTy::Odd => p::<Odd>(s, |v| v.0),
            PathTy::Upper => p::<Upper>(s, |v| v.0),
            PathTy::Never => p::<Never>(s, |v| v.0),
            PathTy::U64 => p::<u64>(s, |v| v.to_string()),
            PathTy::F64 => p::<f64>(s, |v| format!("{:?}", v)),
            PathTy::Ip => p::<std::net::IpAddr>(s, |v| v.to_string()),
            PathTy::Nz => p::<std::num::NonZeroU8>(s, |v| v.to_string()),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Page {
    #[serde(default)]
    pub start: u32,
    pub count: Option<u32>,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Req {
    pub a: u32,
    pub b: String,
}
