//! Native stand-in for `wasm-bindgen`, used (through `[patch.crates-io]`) by the
//! verification crates so that the unmodified crate under test can be compiled and
//! run natively and under Kani. The JavaScript host is replaced by [`host`]: a clock
//! that only moves when told to, and `setTimeout` calls that are recorded and run
//! on request.

pub use wasm_bindgen_macro::wasm_bindgen;

use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

type Callback = Rc<RefCell<dyn FnMut()>>;

#[repr(transparent)]
#[derive(Clone, Default)]
pub struct JsValue {
    cb: Option<Callback>,
}

pub type JsError = JsValue;

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue { cb: None };
    pub const NULL: JsValue = JsValue { cb: None };
    pub const fn undefined() -> JsValue {
        JsValue { cb: None }
    }
    pub const fn null() -> JsValue {
        JsValue { cb: None }
    }
    fn from_callback(cb: Callback) -> JsValue {
        JsValue { cb: Some(cb) }
    }
}

impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JsValue")
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// All implementors are `repr(transparent)` wrappers of [`JsValue`].
pub trait JsCast: AsRef<JsValue> + Sized {
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        unsafe { &*(self.as_ref() as *const JsValue as *const T) }
    }
    fn unchecked_into<T: JsCast + Clone>(self) -> T {
        self.unchecked_ref::<T>().clone()
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        Some(self.unchecked_ref())
    }
    fn dyn_into<T: JsCast + Clone>(self) -> Result<T, Self> {
        Ok(self.unchecked_into())
    }
}

impl JsCast for JsValue {}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}

impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub mod closure {
    use super::*;

    pub struct Closure<T: ?Sized> {
        js: JsValue,
        _p: PhantomData<Box<T>>,
    }

    /// Callbacks that can be called once. `T` is the type of the closure made of it.
    pub trait StubFnOnce<T: ?Sized>: 'static {
        fn into_callback(self) -> Callback;
    }

    impl<F: FnOnce() + 'static> StubFnOnce<dyn FnMut()> for F {
        fn into_callback(self) -> Callback {
            let mut f = Some(self);
            Rc::new(RefCell::new(move || (f.take().expect("FnOnce called more than once"))()))
        }
    }

    impl<T: ?Sized> Closure<T> {
        pub fn once<F: StubFnOnce<T>>(f: F) -> Closure<T> {
            Closure {
                js: JsValue::from_callback(f.into_callback()),
                _p: PhantomData,
            }
        }
        pub fn once_into_js<F: StubFnOnce<T>>(f: F) -> JsValue {
            JsValue::from_callback(f.into_callback())
        }
        pub fn into_js_value(self) -> JsValue {
            self.js.clone()
        }
        pub fn forget(self) {
            std::mem::forget(self)
        }
    }

    impl Closure<dyn FnMut()> {
        pub fn new<F: FnMut() + 'static>(f: F) -> Self {
            Closure {
                js: JsValue::from_callback(Rc::new(RefCell::new(f))),
                _p: PhantomData,
            }
        }
        pub fn wrap(mut f: Box<dyn FnMut()>) -> Self {
            Self::new(move || f())
        }
    }

    impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
        fn as_ref(&self) -> &JsValue {
            &self.js
        }
    }
}

pub mod host {
    //! The controlled host.
    use super::*;
    use std::cell::Cell;

    pub struct Armed {
        /// Number of the call, from 1.
        pub seq: u64,
        /// Time at which it was armed, in the unit of [`set_now`].
        pub at: f64,
        pub delay: i32,
        /// Earliest time at which it may run.
        pub due: f64,
        cb: Callback,
    }

    thread_local! {
        static NOW: Cell<f64> = const { Cell::new(0.0) };
        static DATE: Cell<f64> = const { Cell::new(0.0) };
        static SEQ: Cell<u64> = const { Cell::new(0) };
        static ARMED: RefCell<Vec<Armed>> = const { RefCell::new(Vec::new()) };
    }

    /// Sets the value of `performance.now()`, in milliseconds.
    pub fn set_now(ms: f64) {
        NOW.with(|n| n.set(ms))
    }
    pub fn performance_now() -> f64 {
        NOW.with(|n| n.get())
    }
    pub fn set_date(ms: f64) {
        DATE.with(|n| n.set(ms))
    }
    pub fn date_now() -> f64 {
        DATE.with(|n| n.get())
    }

    pub fn set_timeout(handler: &JsValue, timeout: i32) -> Result<JsValue, JsValue> {
        let seq = SEQ.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        let at = performance_now();
        ARMED.with(|a| {
            a.borrow_mut().push(Armed {
                seq,
                at,
                delay: timeout,
                due: at + timeout.max(0) as f64,
                cb: handler.cb.clone().expect("setTimeout called without a callback"),
            })
        });
        Ok(JsValue::undefined())
    }

    /// Number of `setTimeout` calls so far.
    pub fn calls() -> u64 {
        SEQ.with(|s| s.get())
    }

    pub fn with_armed<R>(f: impl FnOnce(&[Armed]) -> R) -> R {
        ARMED.with(|a| f(&a.borrow()))
    }

    /// Forgets all armed callbacks without running them.
    pub fn take_armed() -> Vec<Armed> {
        ARMED.with(|a| std::mem::take(&mut *a.borrow_mut()))
    }

    /// Runs the callback with number `seq`; false if there is none.
    pub fn run(seq: u64) -> bool {
        let armed = ARMED.with(|a| {
            let mut a = a.borrow_mut();
            let i = a.iter().position(|x| x.seq == seq)?;
            Some(a.remove(i))
        });
        match armed {
            Some(armed) => {
                (armed.cb.borrow_mut())();
                true
            }
            None => false,
        }
    }
}
