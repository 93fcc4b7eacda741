Contracts of all of src/std.rs: instants, wall-clock times and their serialised forms.

== file src/std.rs
== option expand
== option public
== option unnest
== drop std::fmt::Display for SystemTimeError
== drop Visitor for FieldVisitor::expecting
== drop Visitor for DurationVisitor::expecting
== rename src/std.rs `serde_crate::ser::` => `` -- the stand-in
== rename src/std.rs `serde_crate::de::` => `` -- the stand-in
== rename src/std.rs `AddAssign<Duration> for Instant` => `Instant` -- a method of its own
== rename src/std.rs `SubAssign<Duration> for Instant` => `Instant` -- a method of its own
== rename src/std.rs `AddAssign<Duration> for SystemTime` => `SystemTime` -- a method of its own
== rename src/std.rs `SubAssign<Duration> for SystemTime` => `SystemTime` -- a method of its own
== rename src/std.rs `PartialEq for SystemTime` => `SystemTime` -- a method of its own
== rename src/std.rs `Eq for SystemTime` => `EqMark for SystemTime` -- its methods are its own
== rename src/std.rs `PartialOrd for SystemTime` => `SystemTime` -- a method of its own
== rename src/std.rs `Ord for SystemTime` => `SystemTime` -- a method of its own
== rename src/std.rs `Serialize for SystemTime` => `SystemTime` -- a method of its own
== rename src/std.rs `String::from_utf8_lossy(value)` => `lossy(value)` -- the stand-in
== rename src/std.rs `FIELDS: &[&str]` => `FIELDS: &'static [&'static str]` -- spelled out
== item uses
use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use vstd::float::float_cast_spec;
use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl, OrdSpecImpl, PartialOrdSpec, PartialEqSpec, OrdSpec};
use vstd::std_specs::ops::{AddSpecImpl, SubSpecImpl};
== prelude
// --- doubles: whole numbers of at most 53 bits, on which IEEE arithmetic is exact ---

pub mod ieee {
use super::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;

pub spec const MAX: int = 0x20_0000_0000_0000 - 1;

pub open spec fn fits(n: int) -> bool { -MAX <= n <= MAX }

pub open spec fn order_of(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }
}

/// Durations end before this.
pub spec const END: int = 0x1_0000_0000_0000_0000int * 1_000_000_000int;

/// A whole number of at most 53 bits.
pub uninterp spec fn whole(x: f64) -> bool;
pub uninterp spec fn val(x: f64) -> int;

pub broadcast axiom fn small(x: f64) requires #[trigger] whole(x), ensures fits(val(x));
pub broadcast axiom fn zero() ensures whole(0.0f64), #[trigger] val(0.0f64) == 0;
pub broadcast axiom fn add_ok(x: f64, y: f64) ensures #[trigger] x.add_req(y);
pub broadcast axiom fn sub_ok(x: f64, y: f64) ensures #[trigger] x.sub_req(y);
pub broadcast axiom fn mul_ok(x: f64, y: f64) ensures #[trigger] x.mul_req(y);
pub broadcast axiom fn div_ok(x: f64, y: f64) ensures #[trigger] x.div_req(y);
pub broadcast axiom fn add_is(x: f64, y: f64, r: f64)
    requires #[trigger] add_ensures(x, y, r), whole(x), whole(y), fits(val(x) + val(y)),
    ensures whole(r), val(r) == val(x) + val(y);
pub broadcast axiom fn sub_is(x: f64, y: f64, r: f64)
    requires #[trigger] sub_ensures(x, y, r), whole(x), whole(y), fits(val(x) - val(y)),
    ensures whole(r), val(r) == val(x) - val(y);
pub broadcast axiom fn mul_is(x: f64, y: f64, r: f64)
    requires #[trigger] mul_ensures(x, y, r), whole(x), whole(y), fits(val(x) * val(y)),
    ensures whole(r), val(r) == val(x) * val(y);
pub broadcast axiom fn lt_is(x: f64, y: f64, r: bool)
    requires #[trigger] lt_ensures(x, y, r), whole(x), whole(y), ensures r == (val(x) < val(y));
pub broadcast axiom fn le_is(x: f64, y: f64, r: bool)
    requires #[trigger] le_ensures(x, y, r), whole(x), whole(y), ensures r == (val(x) <= val(y));
pub broadcast axiom fn gt_is(x: f64, y: f64, r: bool)
    requires #[trigger] gt_ensures(x, y, r), whole(x), whole(y), ensures r == (val(x) > val(y));
pub broadcast axiom fn ge_is(x: f64, y: f64, r: bool)
    requires #[trigger] ge_ensures(x, y, r), whole(x), whole(y), ensures r == (val(x) >= val(y));
pub broadcast axiom fn eq_is(x: f64, y: f64, r: bool)
    requires #[trigger] eq_ensures(x, y, r), whole(x), whole(y), ensures r == (val(x) == val(y));
pub broadcast axiom fn ne_is(x: f64, y: f64, r: bool)
    requires #[trigger] ne_ensures(x, y, r), whole(x), whole(y), ensures r == (val(x) != val(y));
pub broadcast axiom fn cmp_is(x: f64, y: f64, r: Option<Ordering>)
    requires #[trigger] partial_cmp_ensures(x, y, r), whole(x), whole(y), ensures r == Some(order_of(val(x), val(y)));
/// Conversions of floats to integers saturate.
pub broadcast axiom fn to_u64(x: f64, r: u64)
    requires #[trigger] float_cast_spec(x, r), whole(x), ensures r == if val(x) < 0 { 0 } else { val(x) };
pub broadcast axiom fn to_u128(x: f64, r: u128)
    requires #[trigger] float_cast_spec(x, r), whole(x), ensures r == if val(x) < 0 { 0 } else { val(x) };
pub broadcast axiom fn to_i64(x: f64, r: i64)
    requires #[trigger] float_cast_spec(x, r), whole(x), ensures r == val(x);
pub broadcast axiom fn of_u128(n: u128, r: f64)
    requires #[trigger] float_cast_spec(n, r), fits(n as int), ensures whole(r), val(r) == n;
pub broadcast axiom fn of_u64(n: u64, r: f64)
    requires #[trigger] float_cast_spec(n, r), fits(n as int), ensures whole(r), val(r) == n;
pub broadcast axiom fn of_u32(n: u32, r: f64)
    requires #[trigger] float_cast_spec(n, r), ensures whole(r), val(r) == n;
pub broadcast axiom fn of_i64(n: i64, r: f64)
    requires #[trigger] float_cast_spec(n, r), fits(n as int), ensures whole(r), val(r) == n;

#[verifier::external_body]
#[derive(Clone, Copy, Debug)]
pub struct Duration { d: std::time::Duration }

impl Duration { pub uninterp spec fn ns(self) -> int; }
pub broadcast axiom fn span(d: Duration) ensures 0 <= #[trigger] d.ns() < END;

/// What is in the field is a double. (Verus knows that of values, but not of fields.)
pub broadcast axiom fn field(s: SystemTime) ensures exists|y: f64| #[trigger] whole(y) == whole(y) && y == (#[trigger] s.inner);

pub broadcast group ieee {
    field,
    span,
    small, zero, add_ok, sub_ok, mul_ok, div_ok, add_is, sub_is, mul_is, lt_is, le_is, gt_is, ge_is, eq_is, ne_is, cmp_is,
    to_u64, to_u128, to_i64, of_u128, of_u64, of_u32, of_i64,
}
}
use ieee::{Duration, whole, val, fits, order_of, MAX, END};
broadcast use ieee::ieee;

pub assume_specification [f64::abs](x: f64) -> (r: f64)
    ensures whole(x) ==> whole(r) && val(r) == (if val(x) < 0 { -val(x) } else { val(x) });

// --- std::time::Duration (external): seconds and nanoseconds ---

impl Duration {
    #[verifier::external_body]
    pub fn new(s: u64, n: u32) -> (r: Duration)
        requires s + n / 1_000_000_000 <= u64::MAX,
        ensures r.ns() == s * 1_000_000_000 + n,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.ns() == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(m: u64) -> (r: Duration) ensures r.ns() == m * 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_micros(m: u64) -> (r: Duration) ensures r.ns() == m * 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_nanos(n: u64) -> (r: Duration) ensures r.ns() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn as_nanos(&self) -> (r: u128) ensures r == self.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_micros(&self) -> (r: u128) ensures r == self.ns() / 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.ns() / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.ns() / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.ns() % 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_micros(&self) -> (r: u32) ensures r == self.ns() % 1_000_000_000 / 1_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_millis(&self) -> (r: u32) ensures r == self.ns() % 1_000_000_000 / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: Duration) -> (r: Option<Duration>)
        ensures match r { Some(x) => x.ns() == self.ns() + o.ns(), None => self.ns() + o.ns() >= END }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>)
        ensures match r { Some(x) => x.ns() == self.ns() - o.ns(), None => self.ns() < o.ns() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Duration) -> (r: Duration)
        ensures r.ns() == if self.ns() < o.ns() { 0 } else { self.ns() - o.ns() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Duration) -> (r: Duration)
        ensures r.ns() == if self.ns() + o.ns() < END { self.ns() + o.ns() } else { END - 1 }
    { unimplemented!() }
}

impl AddSpecImpl<Duration> for Duration {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, d: Duration) -> bool { self.ns() + d.ns() < END }
    open spec fn add_spec(self, d: Duration) -> Duration { arbitrary() }
}
impl Add for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn add(self, d: Duration) -> (r: Duration) ensures r.ns() == self.ns() + d.ns() { unimplemented!() }
}
impl SubSpecImpl<Duration> for Duration {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Duration) -> bool { self.ns() >= d.ns() }
    open spec fn sub_spec(self, d: Duration) -> Duration { arbitrary() }
}
impl Sub for Duration {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, d: Duration) -> (r: Duration) ensures r.ns() == self.ns() - d.ns() { unimplemented!() }
}
impl PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns() == o.ns() }
}
impl PartialEq for Duration {
    #[verifier::external_body]
    fn eq(&self, o: &Duration) -> bool { unimplemented!() }
}
impl Eq for Duration {}
impl PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { Some(order_of(self.ns(), o.ns())) }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Duration) -> Option<Ordering> { unimplemented!() }
}
impl OrdSpecImpl for Duration {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Duration) -> Ordering { order_of(self.ns(), o.ns()) }
}
impl Ord for Duration {
    #[verifier::external_body]
    fn cmp(&self, o: &Duration) -> Ordering { unimplemented!() }
}

impl Default for Duration {
    #[verifier::external_body]
    fn default() -> (r: Duration) ensures r.ns() == 0 { unimplemented!() }
}



// --- the host ---

#[verifier::external_body]
pub fn performance_now() -> f64 { unimplemented!() }

pub mod js_sys {
use super::*;
pub struct Date { }
impl Date {
    /// ECMAScript: a whole number of milliseconds.
    #[verifier::external_body]
    pub fn now() -> (r: f64) ensures whole(r) { unimplemented!() }
}
}

pub trait EqMark { }

// --- instants ---

impl Instant {
    /// Nanoseconds from the origin.
    pub open spec fn t(self) -> int { self.0.ns() }
}
impl PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Instant) -> bool { self.t() == o.t() }
}
impl PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<Ordering> { Some(order_of(self.t(), o.t())) }
}
impl OrdSpecImpl for Instant {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Instant) -> Ordering { order_of(self.t(), o.t()) }
}
impl AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, d: Duration) -> bool { self.t() + d.ns() < END }
    open spec fn add_spec(self, d: Duration) -> Instant { arbitrary() }
}
impl SubSpecImpl<Duration> for Instant {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Duration) -> bool { self.t() >= d.ns() }
    open spec fn sub_spec(self, d: Duration) -> Instant { arbitrary() }
}
impl SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Instant) -> bool { true }
    open spec fn sub_spec(self, d: Instant) -> Duration { arbitrary() }
}

/// Both differences.
pub trait Minus<O, R> { spec fn minus(self, o: O, r: R) -> bool; }
impl Minus<Duration, Instant> for Instant {
    open spec fn minus(self, o: Duration, r: Instant) -> bool { r.t() == self.t() - o.ns() }
}
impl Minus<Instant, Duration> for Instant {
    open spec fn minus(self, o: Instant, r: Duration) -> bool { r.ns() == if self.t() < o.t() { 0 } else { self.t() - o.t() } }
}

// --- wall-clock times ---

impl SystemTime {
    pub open spec fn ok(self) -> bool { whole(self.inner) }
    /// Milliseconds after the epoch.
    pub open spec fn ms(self) -> int { val(self.inner) }
}
/// `r` is `d` later than `s`, if that is within 53 bits.
pub open spec fn later(s: SystemTime, d: Duration, r: SystemTime) -> bool {
    s.ok() && d.ns() / 1_000_000 <= MAX && fits(s.ms() + d.ns() / 1_000_000) ==> r.ok() && r.ms() == s.ms() + d.ns() / 1_000_000
}
pub open spec fn earlier(s: SystemTime, d: Duration, r: SystemTime) -> bool {
    s.ok() && d.ns() / 1_000_000 <= MAX && fits(s.ms() - d.ns() / 1_000_000) ==> r.ok() && r.ms() == s.ms() - d.ns() / 1_000_000
}
pub open spec fn distance(n: int, r: Result<Duration, SystemTimeError>) -> bool {
    match r {
        Ok(d) => n >= 0 && d.ns() == n * 1_000_000,
        Err(e) => n < 0 && e.0.ns() == -n * 1_000_000,
    }
}
impl AddSpecImpl<Duration> for SystemTime {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> SystemTime { arbitrary() }
}
impl SubSpecImpl<Duration> for SystemTime {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, d: Duration) -> bool { true }
    open spec fn sub_spec(self, d: Duration) -> SystemTime { arbitrary() }
}

// --- serde (external): what its traits promise ---

/// A document: what a deserialiser reads.
pub enum Doc {
    Text(Seq<char>),
    Bytes(Seq<u8>),
    Int(int),
    Map(Seq<(Doc, Doc)>),
    Seq(Seq<Doc>),
    Other,
}

pub trait Error: Sized {
    fn custom(msg: &str) -> Self;
    fn unknown_field(name: &str, expected: &[&str]) -> Self;
    fn invalid_length<X>(len: usize, expected: &X) -> Self;
    fn missing_field(name: &str) -> Self;
    fn duplicate_field(name: &str) -> Self;
}

#[verifier::external_body]
fn lossy(b: &[u8]) -> &str { unimplemented!() }

/// The bytes of a text: no two texts have the same.
pub uninterp spec fn bytes_of(s: Seq<char>) -> Seq<u8>;
pub axiom fn axiom_bytes_of(s: Seq<char>, t: Seq<char>) requires bytes_of(s) == bytes_of(t) ensures s == t;

#[verifier::external_body]
fn text_is(s: &str, lit: &str) -> (r: bool) ensures r == (s@ == lit@) { unimplemented!() }

#[verifier::external_body]
fn bytes_are(s: &[u8], lit: &str) -> (r: bool) ensures r == (s@ == bytes_of(lit@)) { unimplemented!() }

/// Whether a type takes a document, and what it can give for it.
pub trait Known: Sized {
    spec fn takes(doc: Doc) -> bool;
    spec fn gives(doc: Doc, v: Self) -> bool;
}

pub trait Deserialize<'de>: Known {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>)
        ensures r matches Ok(v) ==> Self::gives(deserializer.doc(), v),
            r is Err ==> !(deserializer.sound() && Self::takes(deserializer.doc()));
}

impl Known for u64 {
    open spec fn takes(doc: Doc) -> bool { doc matches Doc::Int(n) && 0 <= n <= u64::MAX }
    open spec fn gives(doc: Doc, v: u64) -> bool { doc == Doc::Int(v as int) }
}
impl<'de> Deserialize<'de> for u64 {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<u64, D::Error> { unimplemented!() }
}

impl Known for u32 {
    open spec fn takes(doc: Doc) -> bool { doc matches Doc::Int(n) && 0 <= n <= u32::MAX }
    open spec fn gives(doc: Doc, v: u32) -> bool { doc == Doc::Int(v as int) }
}
impl<'de> Deserialize<'de> for u32 {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<u32, D::Error> { unimplemented!() }
}

/// `sound`: the input is intact, so that the deserialiser fails only if what it is asked for does not take it.
pub trait Deserializer<'de>: Sized {
    type Error: Error;
    spec fn doc(self) -> Doc;
    spec fn sound(self) -> bool;
    fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures r matches Ok(v) ==> !(self.doc() is Map) && !(self.doc() is Seq) && V::gives(self.doc(), v),
            r is Err ==> !(self.sound() && !(self.doc() is Map) && !(self.doc() is Seq) && V::takes(self.doc()));
    fn deserialize_struct<V: Visitor<'de>>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
        requires fields@.len() == 2, fields[0]@ == secs(), fields[1]@ == nanos(),
        ensures r matches Ok(v) ==> (self.doc() is Map || self.doc() is Seq) && V::gives(self.doc(), v),
            r is Err ==> !(self.sound() && (self.doc() is Map || (self.doc() matches Doc::Seq(s) && s.len() == fields@.len())) && V::takes(self.doc()));
}

/// What a visitor does not implement is refused.
pub trait Visitor<'de>: Sized {
    type Value;
    spec fn takes(doc: Doc) -> bool;
    spec fn gives(doc: Doc, v: Self::Value) -> bool;
    #[verifier::external_body]
    fn visit_str<E: Error>(self, value: &str) -> (r: Result<Self::Value, E>)
        ensures r matches Ok(v) ==> Self::gives(Doc::Text(value@), v),
            r is Err ==> !Self::takes(Doc::Text(value@)),
    { unimplemented!() }
    #[verifier::external_body]
    fn visit_bytes<E: Error>(self, value: &[u8]) -> (r: Result<Self::Value, E>)
        ensures r matches Ok(v) ==> Self::gives(Doc::Bytes(value@), v),
            r is Err ==> !Self::takes(Doc::Bytes(value@)),
    { unimplemented!() }
    #[verifier::external_body]
    fn visit_seq<A: SeqAccess<'de>>(self, seq: A) -> (r: Result<Self::Value, A::Error>)
        ensures r matches Ok(v) ==> Self::gives(Doc::Seq(seq.rest()), v),
            r is Err ==> !(seq.sound() && Self::takes(Doc::Seq(seq.rest()))),
    { unimplemented!() }
    #[verifier::external_body]
    fn visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<Self::Value, A::Error>)
        requires map.value() is None,
        ensures r matches Ok(v) ==> Self::gives(Doc::Map(map.rest()), v),
            r is Err ==> !(map.sound() && Self::takes(Doc::Map(map.rest()))),
    { unimplemented!() }
}

pub trait SeqAccess<'de>: Sized {
    type Error: Error;
    spec fn rest(self) -> Seq<Doc>;
    spec fn sound(self) -> bool;
    fn next_element<T: Known>(&mut self) -> (r: Result<Option<T>, Self::Error>)
        ensures final(self).sound() == old(self).sound(),
            match r {
                Ok(None) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
                Ok(Some(v)) => old(self).rest().len() > 0 && T::gives(old(self).rest()[0], v)
                    && final(self).rest() == old(self).rest().skip(1),
                Err(_) => old(self).sound() ==> old(self).rest().len() > 0 && !T::takes(old(self).rest()[0]),
            };
}

pub trait MapAccess<'de>: Sized {
    type Error: Error;
    spec fn rest(self) -> Seq<(Doc, Doc)>;
    spec fn value(self) -> Option<Doc>;
    spec fn sound(self) -> bool;
    fn next_key<K: Known>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        requires old(self).value() is None,
        ensures final(self).sound() == old(self).sound(),
            match r {
                Ok(None) => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() && final(self).value() is None,
                Ok(Some(k)) => old(self).rest().len() > 0 && K::gives(old(self).rest()[0].0, k)
                    && final(self).rest() == old(self).rest().skip(1) && final(self).value() == Some(old(self).rest()[0].1),
                Err(_) => old(self).sound() ==> old(self).rest().len() > 0 && !K::takes(old(self).rest()[0].0),
            };
    fn next_value<V: Known>(&mut self) -> (r: Result<V, Self::Error>)
        requires old(self).value() is Some,
        ensures final(self).sound() == old(self).sound(), final(self).rest() == old(self).rest(), final(self).value() is None,
            match r {
                Ok(v) => V::gives(old(self).value().unwrap(), v),
                Err(_) => old(self).sound() ==> !V::takes(old(self).value().unwrap()),
            };
}

/// A number that is written.
pub trait Number { spec fn number(self) -> int; }
impl Number for u64 { open spec fn number(self) -> int { self as int } }
impl Number for u32 { open spec fn number(self) -> int { self as int } }
impl Number for u128 { open spec fn number(self) -> int { self as int } }
impl Number for i64 { open spec fn number(self) -> int { self as int } }

pub trait Serializer: Sized {
    type Ok;
    type Error: Error;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    spec fn sound(self) -> bool;
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures self.sound() ==> r is Ok,
            r matches Ok(st) ==> st.sound() == self.sound() && st.fields() == Seq::<(Seq<char>, int)>::empty() && st.declared() == len;
}

pub trait SerializeStruct: Sized {
    type Ok;
    type Error: Error;
    spec fn sound(self) -> bool;
    spec fn fields(self) -> Seq<(Seq<char>, int)>;
    spec fn declared(self) -> nat;
    /// `r` is what has been written.
    spec fn done(self, r: Self::Ok) -> bool;
    fn serialize_field<T: Number>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
        ensures old(self).sound() ==> r is Ok,
            r is Ok ==> final(self).sound() == old(self).sound() && final(self).declared() == old(self).declared()
                && final(self).fields() == old(self).fields().push((key@, value.number()));
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        requires self.fields().len() == self.declared(),
        ensures self.sound() ==> r is Ok, r matches Ok(o) ==> self.done(o);
}

pub open spec fn secs() -> Seq<char> { "secs_since_epoch"@ }
pub open spec fn nanos() -> Seq<char> { "nanos_since_epoch"@ }

/// How a time is written.
pub open spec fn written(ms: int) -> Seq<(Seq<char>, int)> {
    seq![(secs(), ms / 1000), (nanos(), ms % 1000 * 1_000_000)]
}

/// The field that a key is.
pub open spec fn key_is(key: Doc, name: Seq<char>) -> bool {
    key == Doc::Text(name) || key == Doc::Bytes(bytes_of(name))
}

/// A pair of numbers that is a duration.
pub open spec fn pair(s: Doc, n: Doc) -> bool {
    <u64 as Known>::takes(s) && <u32 as Known>::takes(n) && s->Int_0 + n->Int_0 / 1_000_000_000 <= u64::MAX
}

/// The seconds and nanoseconds of a document.
pub open spec fn parts(doc: Doc) -> Option<(Doc, Doc)> {
    match doc {
        Doc::Seq(s) => if s.len() >= 2 { Some((s[0], s[1])) } else { None },
        Doc::Map(m) => if m.len() != 2 { None }
            else if key_is(m[0].0, secs()) && key_is(m[1].0, nanos()) { Some((m[0].1, m[1].1)) }
            else if key_is(m[1].0, secs()) && key_is(m[0].0, nanos()) { Some((m[1].1, m[0].1)) }
            else { None },
        _ => None,
    }
}

pub open spec fn readable(doc: Doc) -> bool { parts(doc) matches Some((s, n)) && pair(s, n) }

pub open spec fn nanos_of(doc: Doc) -> int { parts(doc).unwrap().0->Int_0 * 1_000_000_000 + parts(doc).unwrap().1->Int_0 }

impl Known for Field {
    open spec fn takes(doc: Doc) -> bool { key_is(doc, secs()) || key_is(doc, nanos()) }
    open spec fn gives(doc: Doc, v: Field) -> bool { key_is(doc, if v is Secs { secs() } else { nanos() }) }
}

impl Known for SystemTime {
    open spec fn takes(doc: Doc) -> bool { readable(doc) && (doc matches Doc::Seq(s) ==> s.len() == 2) }
    open spec fn gives(doc: Doc, v: SystemTime) -> bool {
        readable(doc) && (nanos_of(doc) / 1_000_000 <= MAX ==> v.ok() && v.ms() == nanos_of(doc) / 1_000_000)
    }
}

pub open spec fn apart() -> bool { forall|k: Doc| !(#[trigger] key_is(k, secs()) && key_is(k, nanos())) }

pub proof fn lemma_names()
    ensures apart(),
{
    reveal_strlit("secs_since_epoch");
    reveal_strlit("nanos_since_epoch");
    assert(secs().len() == 16 && nanos().len() == 17);
    assert forall|k: Doc| !(#[trigger] key_is(k, secs()) && key_is(k, nanos())) by {
        if bytes_of(secs()) == bytes_of(nanos()) { axiom_bytes_of(secs(), nanos()); }
    }
}

/// What is left of `all` once the fields that are known have been read.
pub open spec fn collected(all: Seq<(Doc, Doc)>, rest: Seq<(Doc, Doc)>, s: Option<u64>, n: Option<u32>) -> bool {
    let s_at = |i: int| s is Some && key_is(all[i].0, secs()) && all[i].1 == Doc::Int(s.unwrap() as int);
    let n_at = |i: int| n is Some && key_is(all[i].0, nanos()) && all[i].1 == Doc::Int(n.unwrap() as int);
    let done = (if s is Some { 1int } else { 0 }) + (if n is Some { 1int } else { 0 });
    &&& all.len() == done + rest.len()
    &&& rest =~= all.skip(done)
    &&& s is Some && n is None ==> s_at(0)
    &&& s is None && n is Some ==> n_at(0)
    &&& s is Some && n is Some ==> s_at(0) && n_at(1) || n_at(0) && s_at(1)
}

== in Visitor for FieldVisitor
    open spec fn takes(doc: Doc) -> bool { key_is(doc, secs()) || key_is(doc, nanos()) }
    open spec fn gives(doc: Doc, v: Field) -> bool { key_is(doc, if v is Secs { secs() } else { nanos() }) }

== in Visitor for DurationVisitor
    open spec fn takes(doc: Doc) -> bool { readable(doc) }
    open spec fn gives(doc: Doc, v: Duration) -> bool { readable(doc) && v.ns() == nanos_of(doc) }

== fn PartialEq for Instant::eq
    ensures ret == (self.t() == other.t()), // [C01]

== fn PartialOrd for Instant::partial_cmp
    ensures ret == Some(order_of(self.t(), other.t())), // [C01]

== fn Ord for Instant::cmp
    ensures ret == order_of(self.t(), other.t()), // [C01]

== fn Instant::checked_duration_since
    ensures match ret { Some(d) => d.ns() == self.t() - earlier.t(), None => self.t() < earlier.t() }, // [C01]

== fn Instant::duration_since
    ensures ret.ns() == if self.t() < earlier.t() { 0 } else { self.t() - earlier.t() }, // [C01]

== fn Instant::saturating_duration_since
    ensures ret.ns() == if self.t() < earlier.t() { 0 } else { self.t() - earlier.t() }, // [C01]

== fn Instant::checked_add
    ensures match ret { Some(i) => i.t() == self.t() + duration.ns(), None => self.t() + duration.ns() >= END }, // [C01]

== fn Instant::checked_sub
    ensures match ret { Some(i) => i.t() == self.t() - duration.ns(), None => self.t() < duration.ns() }, // [C01]

== fn Add for Instant::add
    ensures ret.t() == self.t() + other.ns(), // [C01]

== fn Sub for Instant::sub
    ensures self.minus(other, ret), // [C01]

== fn Instant::add_assign
    requires old(self).t() + other.ns() < END,
    ensures final(self).t() == old(self).t() + other.ns(), // [C01]

== fn Instant::sub_assign
    requires old(self).t() >= other.ns(),
    ensures final(self).t() == old(self).t() - other.ns(), // [C01]

== fn Instant::now

== fn Instant::now_js

== fn Instant::elapsed
    ensures exists|i: Instant| #[trigger] i.minus(*self, ret), // [C01]

== item Instant
#[derive(Clone, Copy, Debug)]
== item SystemTime
#[derive(Clone, Copy, Debug)]
== item SystemTimeError
#[derive(Clone, Copy, Debug)]

== fn SystemTimeError::duration
    ensures ret == self.0, // [C02]

== fn SystemTime::eq
    ensures self.ok() && other.ok() ==> ret == (self.ms() == other.ms()), // [C02]

== fn SystemTime::partial_cmp
    requires self.ok(), other.ok(),
    ensures ret == Some(order_of(self.ms(), other.ms())), // [C02]

== fn SystemTime::cmp
    requires self.ok(), other.ok(),
    ensures ret == order_of(self.ms(), other.ms()), // [C02]

== fn SystemTime::now
    ensures ret.ok(), // [C02]

== fn SystemTime::duration_since
    ensures self.ok() && earlier.ok() && fits(self.ms() - earlier.ms()) ==> distance(self.ms() - earlier.ms(), ret), // [C02]

== fn SystemTime::elapsed
    ensures self.ok() ==> exists|now: SystemTime| #[trigger] now.ok() && (fits(now.ms() - self.ms()) ==> distance(now.ms() - self.ms(), ret)), // [C02]

== fn SystemTime::checked_add
    ensures ret matches Some(r) && later(*self, duration, r), // [C02] [C03]

== fn SystemTime::checked_sub
    ensures ret matches Some(r) && earlier(*self, duration, r), // [C02]

== fn Add for SystemTime::add
    ensures later(self, other, ret), // [C02] [C03]

== fn Sub for SystemTime::sub
    ensures earlier(self, other, ret), // [C02]

== fn SystemTime::add_assign
    ensures later(*old(self), rhs, *final(self)), // [C02]

== fn SystemTime::sub_assign
    ensures earlier(*old(self), rhs, *final(self)), // [C02]

== fn SystemTime::serialize
    requires self.ok(),
    ensures self.ms() < 0 ==> ret is Err, // [C03]
        self.ms() >= 0 && serializer.sound() ==> ret is Ok, // [C03]
        ret matches Ok(r) ==> exists|st: S::SerializeStruct| #[trigger] st.done(r) && st.fields() == written(self.ms()), // [C03]

== fn check_overflow
    ensures ret is Ok <==> secs + nanos / 1_000_000_000 <= u64::MAX, // [C03]

== fn Visitor for FieldVisitor::visit_str
    ensures true, // [C03]

== fn Visitor for FieldVisitor::visit_bytes
    ensures true, // [C03]

== fn Deserialize for Field::deserialize
    ensures true, // [C03]

== fn Visitor for DurationVisitor::visit_seq
    ensures true, // [C03]

== fn Visitor for DurationVisitor::visit_map | loop_isolation(false) | allow_complex_invariants
    ensures true, // [C03]
-- entry
    let ghost all = map.rest();
    let ghost intact = map.sound();
    proof { lemma_names(); }
-- loop 1
    invariant
        map.value() is None, map.sound() == intact, apart(), // [C03]
        collected(all, map.rest(), secs, nanos), // [C03]
    ensures map.rest().len() == 0, collected(all, map.rest(), secs, nanos), // [C03]
    decreases map.rest().len(),

== fn Deserialize for SystemTime::deserialize
    ensures true, // [C03]

== lemmas
// --- theorems: what is written is read again ---

/// The documents of what is written for a time: the fields of a map in either order, named by text or bytes, or a sequence.
pub open spec fn form(w: Seq<(Seq<char>, int)>, doc: Doc) -> bool {
    let is = |k: Doc, v: Doc, f: (Seq<char>, int)| key_is(k, f.0) && v == Doc::Int(f.1);
    match doc {
        Doc::Seq(s) => s.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> #[trigger] s[i] == Doc::Int(w[i].1),
        Doc::Map(m) => m.len() == 2 && w.len() == 2 && (is(m[0].0, m[0].1, w[0]) && is(m[1].0, m[1].1, w[1])
            || is(m[0].0, m[0].1, w[1]) && is(m[1].0, m[1].1, w[0])),
        _ => false,
    }
}

pub proof fn round_trip(t: SystemTime, doc: Doc, u: SystemTime)
    requires t.ok(), t.ms() >= 0, form(written(t.ms()), doc),
    ensures <SystemTime as Known>::takes(doc), // [C03]
        <SystemTime as Known>::gives(doc, u) ==> u.ok() && u.ms() == t.ms(), // [C03]
{
    broadcast use ieee::ieee;
    lemma_names();
    assert(fits(val(t.inner)));
    let w = written(t.ms());
    assert(parts(doc) == Some((Doc::Int(w[0].1), Doc::Int(w[1].1))));
    assert((t.ms() / 1000) * 1_000_000_000 + t.ms() % 1000 * 1_000_000 == t.ms() * 1_000_000) by (nonlinear_arith);
}

/// Missing, duplicate and unknown fields, too few elements, and overflow are refused.
pub proof fn refused(doc: Doc, u: SystemTime)
    ensures (match doc {
        Doc::Seq(s) => s.len() < 2,
        Doc::Map(m) => m.len() != 2 || key_is(m[0].0, secs()) && key_is(m[1].0, secs()) || key_is(m[0].0, nanos()) && key_is(m[1].0, nanos())
            || exists|i: int| 0 <= i < m.len() && !(key_is((#[trigger] m[i]).0, secs()) || key_is(m[i].0, nanos())),
        _ => true,
    }) ==> !<SystemTime as Known>::gives(doc, u), // [C03]
        parts(doc) matches Some((Doc::Int(s), Doc::Int(n))) ==> (s + n / 1_000_000_000 > u64::MAX ==> !<SystemTime as Known>::gives(doc, u)), // [C03]
{
    lemma_names();
}

/// Ordering, equality and arithmetic agree, and the epoch is zero.
fn agrees(a: SystemTime, b: SystemTime, d: Duration)
    requires a.ok(), b.ok(), fits(a.ms() - b.ms()), d.ns() / 1_000_000 <= MAX,
{
    assert(UNIX_EPOCH.ms() == 0 && SystemTime::UNIX_EPOCH.ms() == 0 && UNIX_EPOCH.ok() && SystemTime::UNIX_EPOCH.ok()); // [C02]
    let e = a.eq(&b);
    let c = a.cmp(&b);
    assert(e == (c is Equal) && e == (a.ms() == b.ms())); // [C02]
    let r = a.duration_since(b);
    assert(r is Err == (c is Less)); // [C02]
    let up = a + d;
    let down = a - d;
    let cu = a.checked_add(d).unwrap();
    let cd = a.checked_sub(d).unwrap();
    let mut au = a;
    au.add_assign(d);
    let mut ad = a;
    ad.sub_assign(d);
    proof {
        let n = d.ns() / 1_000_000;
        if fits(a.ms() + n) { assert(up.ms() == a.ms() + n && cu.ms() == up.ms() && au.ms() == up.ms()); } // [C02]
        if fits(a.ms() - n) { assert(down.ms() == a.ms() - n && cd.ms() == down.ms() && ad.ms() == down.ms()); } // [C02]
    }
}

== const FIELDS
    ensures FIELDS@.len() == 2, FIELDS@[0]@ == secs(), FIELDS@[1]@ == nanos(), // [C03]
