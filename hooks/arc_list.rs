#[cfg(vh_arcst)]
mod st {
    use super::super::{ArcList, Node};
    use std::sync::atomic::Ordering::SeqCst;

    impl<T> ArcList<T> {
        pub fn verif_of(head: *mut Node<T>) -> ArcList<T> {
            ArcList { list: std::sync::atomic::AtomicPtr::new(head), _marker: std::marker::PhantomData }
        }
        pub fn verif_put(&self, head: *mut Node<T>) {
            self.list.store(head, SeqCst)
        }
        pub fn verif_head(&self) -> *mut Node<T> {
            self.list.load(SeqCst)
        }
    }

    impl<T> Node<T> {
        pub fn verif_sealed() -> *mut Node<T> {
            Node::sealed()
        }
        pub fn verif_set(&self, next: *mut Node<T>, enqueued: bool) {
            self.next.store(next, SeqCst);
            self.enqueued.store(enqueued, SeqCst);
        }
        pub fn verif_get(&self) -> (*mut Node<T>, bool) {
            (self.next.load(SeqCst), self.enqueued.load(SeqCst))
        }
    }
}
