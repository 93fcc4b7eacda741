Contracts of src/tokio/timeout.rs over those of the timer and its sleeps (unit timer).

== assume timer
== file src/tokio/error.rs
== file src/tokio/timeout.rs
== drop fmt::Display for Elapsed
== drop std::error::Error for Elapsed
== drop Timeout::!
== drop Timeout::Output
== rename src/tokio/error.rs `From<Elapsed> for std::io::Error` => `IoError` -- a method of its own
== rename src/tokio/error.rs `std::io::ErrorKind` => `IoKind` -- a stand-in
== rename src/tokio/error.rs `std::io::Error` => `IoError` -- a stand-in
== rename src/tokio/error.rs `.into()` => `.into_error()` -- a method of its own
== rename src/tokio/timeout.rs `Future for Timeout<T>` => `Timeout<T>` -- a method of its own
== rename src/tokio/timeout.rs `mut self: std::pin::Pin<&mut Self>` => `&mut self` -- a method of its own
== rename src/tokio/timeout.rs `Self::Output` => `Result<T::Output, Elapsed>` -- a method of its own
== rename src/tokio/timeout.rs `std::task::Context` => `Context` -- the stand-in
== rename src/tokio/timeout.rs `self.as_mut().future()` => `self.future` -- what unsafe_pinned makes
== rename src/tokio/timeout.rs `self.as_mut().delay()` => `self.delay` -- what unsafe_pinned makes
== rename src/tokio/timeout.rs `self.delay()` => `self.delay` -- what unsafe_pinned makes
== ghost .poll(
== ghost Timeout::new(
== ghost Timeout::new_at(
== prelude
/// The inner future: what a poll of it does is its own affair, but it leaves the sleep of the timeout alone.
pub trait Future: Sized {
    type Output;
    spec fn poll_does(self, after: Self, task: Task, r: Poll<Self::Output>) -> bool;
    fn poll(&mut self, cx: &mut Context<'_>, vw: &mut World) -> (r: Poll<Self::Output>)
        ensures old(self).poll_does(*final(self), old(cx).task(), r), final(cx).task() == old(cx).task(), *final(vw) == *old(vw);
}

pub enum IoKind {
    NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe,
    AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
}

#[verifier::external_body]
pub struct IoError { e: u8 }

impl IoError {
    pub uninterp spec fn kind(&self) -> IoKind;
    #[verifier::external_body]
    pub fn new<E>(k: IoKind, e: E) -> (r: IoError)
        ensures r.kind() == k,
    { unimplemented!() }
}

impl IoKind {
    #[verifier::external_body]
    pub fn into_error(self) -> (r: IoError)
        ensures r.kind() == self,
    { unimplemented!() }
}

== fn Elapsed::new
    ensures true,

== fn IoError::from
    ensures ret.kind() is TimedOut, // [C09]

== fn Timeout::new | ghost
    requires old(vw).g@.fresh(), old(vw).g@.clock + dur.ns() <= last_instant(),
    ensures ret.delay.deadline.t() == old(vw).g@.clock + dur.ns(), ret.future == fut, final(vw).g@.fresh(), ret.delay.ok(final(vw).g@), // [C09]
        !ret.delay.elapsed(final(vw).g@), ret.delay.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.delay.state.unwrap(), ret.delay.deadline),

== fn Timeout::new_at | ghost
    requires old(vw).g@.fresh(),
    ensures ret.delay.deadline == at, ret.future == fut, final(vw).g@.fresh(), ret.delay.ok(final(vw).g@), // [C09]
        !ret.delay.elapsed(final(vw).g@), ret.delay.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.delay.state.unwrap(), at),

== fn timeout | ghost
    requires old(vw).g@.fresh(), old(vw).g@.clock + duration.ns() <= last_instant(),
    ensures ret.delay.deadline.t() == old(vw).g@.clock + duration.ns(), ret.future == future, final(vw).g@.fresh(), ret.delay.ok(final(vw).g@), // [C09]
        !ret.delay.elapsed(final(vw).g@), ret.delay.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.delay.state.unwrap(), ret.delay.deadline),

== fn timeout_at | ghost
    requires old(vw).g@.fresh(),
    ensures ret.delay.deadline == deadline, ret.future == future, final(vw).g@.fresh(), ret.delay.ok(final(vw).g@), // [C09]
        !ret.delay.elapsed(final(vw).g@), ret.delay.state is Some ==> made(old(vw).g@, final(vw).g@, the_driver(), ret.delay.state.unwrap(), deadline),

== fn Timeout::get_ref
    ensures *ret == self.future, // [C09]

== fn Timeout::get_mut
    ensures *ret == old(self).future, *final(ret) == final(self).future, final(self).delay == old(self).delay, // [C09]

== fn Timeout::into_inner
    ensures ret == self.future, // [C09]

== fn Timeout::poll | ghost
    requires old(self).delay.ok(old(vw).g@), old(self).delay.state is Some, old(vw).g@.state[old(self).delay.state.unwrap().key()] & 3 != 2,
    ensures final(self).delay == old(self).delay, // [C09]
        exists|r: Poll<T::Output>| {
            &&& #[trigger] old(self).future.poll_does(final(self).future, old(cx).task(), r)
            &&& match r {
                Poll::Ready(v) => ret == Poll::<Result<T::Output, Elapsed>>::Ready(Ok(v)) && *final(vw) == *old(vw),
                Poll::Pending => if old(self).delay.elapsed(old(vw).g@) { ret matches Poll::Ready(Err(_)) } else {
                    ret is Pending && final(vw).g@.reg[old(self).delay.state.unwrap().key()] == old(cx).task()
                },
            }
        }, // [C09]
        final(vw).g@ == (Shared { reg: final(vw).g@.reg, woken: final(vw).g@.woken, ..old(vw).g@ }), // [C09]
