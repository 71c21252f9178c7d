pub mod stream {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub trait Stream {
        type Item;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
        fn size_hint(&self) -> (usize, Option<usize>) {
            (0, None)
        }
    }

    pub trait StreamExt: Stream {
        fn next(&mut self) -> Next<'_, Self>
        where
            Self: Unpin,
        {
            Next { s: self }
        }
        fn count(self) -> Count<Self>
        where
            Self: Sized,
        {
            Count { s: self, n: 0 }
        }
        fn collect<C: Default + Extend<Self::Item>>(self) -> Collect<Self, C>
        where
            Self: Sized,
        {
            Collect { s: self, c: C::default() }
        }
    }
    impl<S: Stream + ?Sized> StreamExt for S {}

    pub struct Next<'a, S: ?Sized> {
        s: &'a mut S,
    }
    impl<S: Stream + Unpin + ?Sized> Future for Next<'_, S> {
        type Output = Option<S::Item>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            Pin::new(&mut *self.s).poll_next(cx)
        }
    }
    pub struct Count<S> {
        s: S,
        n: usize,
    }
    impl<S: Unpin> Unpin for Count<S> {}
    impl<S: Stream + Unpin> Future for Count<S> {
        type Output = usize;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<usize> {
            loop {
                match Pin::new(&mut self.s).poll_next(cx) {
                    Poll::Ready(Some(_)) => self.n += 1,
                    Poll::Ready(None) => return Poll::Ready(self.n),
                    Poll::Pending => return Poll::Pending,
                }
            }
        }
    }
    pub struct Collect<S, C> {
        s: S,
        c: C,
    }
    impl<S, C> Unpin for Collect<S, C> {}
    impl<S: Stream + Unpin, C: Default + Extend<S::Item>> Future for Collect<S, C> {
        type Output = C;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<C> {
            loop {
                match Pin::new(&mut self.s).poll_next(cx) {
                    Poll::Ready(Some(x)) => self.c.extend(Some(x)),
                    Poll::Ready(None) => return Poll::Ready(std::mem::take(&mut self.c)),
                    Poll::Pending => return Poll::Pending,
                }
            }
        }
    }
    pub struct Iter<I> {
        iter: I,
    }
    impl<I> Unpin for Iter<I> {}
    impl<I: Iterator> Stream for Iter<I> {
        type Item = I::Item;
        fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<I::Item>> {
            Poll::Ready(self.iter.next())
        }
    }
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> {
        Iter { iter: i.into_iter() }
    }
}
