pub use super::level::verif as level;

#[cfg(vh_wheel)]
mod hook {
    use super::super::{InsertError, Stack, Wheel};

    /// The simplest possible slot: a vector of keys; the store maps keys to deadlines.
    #[derive(Default, Debug)]
    pub struct VecStack(Vec<usize>);

    impl Stack for VecStack {
        type Owned = usize;
        type Borrowed = usize;
        type Store = Vec<u64>;

        fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        fn push(&mut self, item: usize, _store: &mut Vec<u64>) {
            self.0.push(item)
        }
        fn pop(&mut self, _store: &mut Vec<u64>) -> Option<usize> {
            self.0.pop()
        }
        fn remove(&mut self, item: &usize, _store: &mut Vec<u64>) {
            let i = self.0.iter().position(|x| x == item).expect("entry is not in this slot");
            self.0.remove(i);
        }
        fn when(item: &usize, store: &Vec<u64>) -> u64 {
            store[*item]
        }
    }

    pub struct TestWheel {
        wheel: Wheel<VecStack>,
        store: Vec<u64>,
    }

    impl TestWheel {
        pub fn new() -> TestWheel {
            TestWheel {
                wheel: Wheel::new(),
                store: Vec::new(),
            }
        }
        pub fn elapsed(&self) -> u64 {
            self.wheel.elapsed()
        }
        /// The key, and whether it went into the wheel; `None` if it is too far ahead.
        pub fn insert(&mut self, when: u64) -> Option<(usize, bool)> {
            let key = self.store.len();
            self.store.push(when);
            match self.wheel.insert(when, key, &mut self.store) {
                Ok(()) => Some((key, true)),
                Err((k, InsertError::Elapsed)) => {
                    assert!(k == key, "the rejected item is not the one inserted");
                    Some((key, false))
                }
                Err((_, InsertError::Invalid)) => None,
            }
        }
        pub fn remove(&mut self, key: usize) {
            self.wheel.remove(&key, &mut self.store)
        }
        pub fn poll_at(&self) -> Option<u64> {
            self.wheel.poll_at()
        }
        pub fn poll(&mut self, now: u64) -> Option<usize> {
            self.wheel.poll(now, &mut self.store)
        }
    }
}
#[cfg(vh_wheel)]
pub use hook::TestWheel;
