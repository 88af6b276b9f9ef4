// User types for generated declarations; nothing but hyperdrive is needed.
use hyperdrive::serde;
use hyperdrive::futures::Future;
use hyperdrive::{http, hyper, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::cell::Cell;
use std::marker::PhantomData;
use std::str::FromStr;
use std::sync::Arc;

#[derive(Debug)]
pub struct BadText;
impl ::std::fmt::Display for BadText {
    fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
        f.write_str("bad")
    }
}
impl ::std::error::Error for BadText {}

macro_rules! texts {
    ($($n:ident)*) => { $(
        pub struct $n(pub String, PhantomData<Cell<u8>>);
        impl $n { pub fn from_str(_: &str) -> Option<u8> { None } }
        impl FromStr for $n {
            type Err = BadText;
            fn from_str(s: &str) -> Result<Self, BadText> { Ok($n(s.to_string(), PhantomData)) }
        }
    )* };
}
texts!(Odd Upper Never);

#[derive(hyperdrive::serde::Deserialize)]
#[serde(crate = "hyperdrive::serde")]
pub struct Page { pub start: Option<u32>, pub count: Option<u32> }
#[derive(hyperdrive::serde::Deserialize)]
#[serde(crate = "hyperdrive::serde")]
pub struct Req { pub a: u32, pub b: String }
pub type Value = Vec<u32>;

macro_rules! leaves {
    ($($n:ident)*) => { $(
        #[derive(Debug, Clone)]
        pub struct $n(pub String);
        impl AsRef<$n> for $n { fn as_ref(&self) -> &$n { self } }
        impl AsRef<NoContext> for $n { fn as_ref(&self) -> &NoContext { &NoContext } }
        impl RequestContext for $n {}
        impl $n { pub fn as_ref(&self) -> u8 { 0 } }
    )* };
}
leaves!(L0 L1 L2 L3 L4 L5 L6 L7 L8 L9 L10 L11 L12 L13 L14 L15);

#[derive(Debug, Clone)]
pub struct Lg<T>(pub T);
impl<T> AsRef<Lg<T>> for Lg<T> { fn as_ref(&self) -> &Lg<T> { self } }
impl<T> AsRef<NoContext> for Lg<T> { fn as_ref(&self) -> &NoContext { &NoContext } }
impl<T> RequestContext for Lg<T> {}

macro_rules! ids {
    ($($n:ident)*) => { $( #[derive(Debug, Clone, Copy)] pub struct $n; )* };
}
ids!(I0 I1 I2 I3 I4 I5 I6 I7 I8 I9 I10 I11 I12 I13 I14 I15);

pub struct Gd<C, I>(PhantomData<(C, I, Cell<u8>)>);
impl<C: RequestContext + Send + 'static, I: Send + 'static> Guard for Gd<C, I> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, _: &C) -> Self::Result { Ok(Gd(PhantomData)) }
}
pub struct Ga<C, I>(PhantomData<(C, I, Cell<u8>)>);
impl<C: RequestContext + Send + 'static, I: Send + 'static> Guard for Ga<C, I> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(_: &Arc<http::Request<()>>, _: &C) -> Self::Result {
        Box::new(hyperdrive::futures::future::ok(Ga(PhantomData)))
    }
}
pub struct Raw<C>(PhantomData<(C, Cell<u8>)>);
impl<C: RequestContext + Send + 'static> FromBody for Raw<C> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &C) -> Self::Result {
        Box::new(hyperdrive::futures::future::ok(Raw(PhantomData)))
    }
}
pub struct Ignore<C>(PhantomData<(C, Cell<u8>)>);
impl<C: RequestContext + Send + 'static> FromBody for Ignore<C> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &C) -> Self::Result { Ok(Ignore(PhantomData)) }
}
pub struct Spy<C>(PhantomData<(C, Cell<u8>)>);
impl<C: RequestContext + Send + 'static> FromRequest for Spy<C> {
    type Context = C;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: C) -> Self::Future {
        Box::new(hyperdrive::futures::future::ok(Spy(PhantomData)))
    }
}
impl<C, I> Gd<C, I> { pub fn from_request(&self) {} }
impl<C> Raw<C> { pub fn from_body(&self) {} }
impl<C> Spy<C> { pub fn from_request_and_body(&self) {} }
pub fn is<T: FromRequest>() {}
pub type Same<T> = T;
