//! Polling once.
use core::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};
pub trait FutureExt: Future {
    fn now_or_never(self) -> Option<Self::Output>
    where
        Self: Sized + Unpin,
    {
        let mut me = self;
        let w = core::task::Waker::noop();
        match Pin::new(&mut me).poll(&mut Context::from_waker(w)) {
            Poll::Ready(x) => Some(x),
            Poll::Pending => None,
        }
    }
}
impl<F: Future> FutureExt for F {}
pub mod future {
    use super::*;
    pub struct PollFn<F>(F);
    impl<F> Unpin for PollFn<F> {}
    pub fn poll_fn<T, F: FnMut(&mut Context<'_>) -> Poll<T>>(f: F) -> PollFn<F> {
        PollFn(f)
    }
    impl<T, F: FnMut(&mut Context<'_>) -> Poll<T>> Future for PollFn<F> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
            (self.0)(cx)
        }
    }
}
pub mod prelude {
    pub use super::{future, FutureExt};
    pub use core::future::Future;
}
