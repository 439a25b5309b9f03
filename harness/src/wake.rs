//! A waker that counts.
use std::{
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
    task::{Wake, Waker},
};

#[derive(Clone)]
pub struct Counter(Arc<Count>);
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
impl Counter {
    pub fn new() -> Counter {
        Counter(Arc::new(Count(AtomicUsize::new(0))))
    }
    pub fn count(&self) -> usize {
        self.0 .0.load(Ordering::SeqCst)
    }
    pub fn waker(&self) -> Waker {
        Waker::from(self.0.clone())
    }
}
