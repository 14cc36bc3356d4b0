//! Iterators behind a uniform interface, with whatever capabilities the
//! concrete iterator has.
use std::marker::PhantomData;

pub struct Tag<I>(PhantomData<fn(I)>);

pub fn tag<I>(_: &I) -> Tag<I> {
    Tag(PhantomData)
}

pub fn enc_for<I: Iterator, F: Fn(I::Item) -> u32>(_: &Tag<I>, f: F) -> F {
    f
}

pub struct Back<I: Iterator> {
    next_back: fn(&mut I) -> Option<I::Item>,
    nth_back: fn(&mut I, usize) -> Option<I::Item>,
    rfold: fn(I, &mut dyn FnMut(I::Item)),
    try_rfold: fn(&mut I, &mut dyn FnMut(I::Item) -> bool),
    rev_next: fn(I, &mut dyn FnMut(I::Item) -> bool),
}

impl<I: Iterator> Clone for Back<I> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<I: Iterator> Copy for Back<I> {}

// Capabilities by autoref specialization, on concrete types.
pub trait YesBack<I: Iterator> {
    fn back(&self) -> Option<Back<I>>;
}
impl<I: DoubleEndedIterator> YesBack<I> for Tag<I> {
    fn back(&self) -> Option<Back<I>> {
        Some(Back {
            next_back: |i| i.next_back(),
            nth_back: |i, n| i.nth_back(n),
            rfold: |i, f| i.rfold((), |(), x| f(x)),
            try_rfold: |i, f| {
                let _ = i.try_rfold((), |(), x| if f(x) { Ok(()) } else { Err(()) });
            },
            rev_next: |i, f| {
                for x in i.rev() {
                    if !f(x) {
                        break;
                    }
                }
            },
        })
    }
}
pub trait NoBack<I: Iterator> {
    fn back(&self) -> Option<Back<I>>;
}
impl<I: Iterator> NoBack<I> for &Tag<I> {
    fn back(&self) -> Option<Back<I>> {
        None
    }
}

pub trait YesClone<I> {
    fn dup(&self) -> Option<fn(&I) -> I>;
}
impl<I: Clone> YesClone<I> for Tag<I> {
    fn dup(&self) -> Option<fn(&I) -> I> {
        Some(|i| i.clone())
    }
}
pub trait NoClone<I> {
    fn dup(&self) -> Option<fn(&I) -> I>;
}
impl<I> NoClone<I> for &Tag<I> {
    fn dup(&self) -> Option<fn(&I) -> I> {
        None
    }
}

pub trait YesLen<I> {
    fn exact(&self) -> Option<fn(&I) -> usize>;
}
impl<I: ExactSizeIterator> YesLen<I> for Tag<I> {
    fn exact(&self) -> Option<fn(&I) -> usize> {
        Some(|i| i.len())
    }
}
pub trait NoLen<I> {
    fn exact(&self) -> Option<fn(&I) -> usize>;
}
impl<I> NoLen<I> for &Tag<I> {
    fn exact(&self) -> Option<fn(&I) -> usize> {
        None
    }
}

pub struct W<I: Iterator, F> {
    pub it: I,
    pub enc: F,
    pub back: Option<Back<I>>,
    pub dup: Option<fn(&I) -> I>,
    pub exact: Option<fn(&I) -> usize>,
}

/// Box a concrete iterator whose items the closure maps to numbers.
#[macro_export]
macro_rules! boxed_it {
    ($it:expr, $enc:expr) => {{
        #[allow(unused_imports)]
        use $crate::it::{NoBack, NoClone, NoLen, YesBack, YesClone, YesLen};
        let it = $it;
        let tag = $crate::it::tag(&it);
        let (back, dup, exact) = ((&tag).back(), (&tag).dup(), (&tag).exact());
        let enc = $crate::it::enc_for(&tag, $enc);
        Box::new($crate::it::W { it, enc, back, dup, exact })
    }};
}

/// Items are numbers; bounded internal traversals panic if there are more
/// items than the bound.
pub trait It<'a> {
    fn next(&mut self) -> Option<u32>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn has_back(&self) -> bool;
    fn can_dup(&self) -> bool;
    fn exact(&self) -> Option<usize>;
    fn dup(&self) -> Option<Box<dyn It<'a> + 'a>>;
    fn nth(&mut self, n: usize) -> Option<u32>;
    /// Consume through try_fold until the callback returns false.
    fn try_fold(&mut self, f: &mut dyn FnMut(u32) -> bool);
    fn find_nth(&mut self, n: usize) -> Option<u32>;
    fn position(&mut self, want: u32) -> Option<usize>;
    fn take(&mut self, n: usize) -> Vec<u32>;
    fn skip_collect(self: Box<Self>, n: usize) -> Vec<u32>;
    fn step_by_collect(self: Box<Self>, n: usize) -> Vec<u32>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(u32));
    fn collect(self: Box<Self>) -> Vec<u32>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<u32>;
    fn max(self: Box<Self>) -> Option<u32>;
    // Only with has_back.
    fn next_back(&mut self) -> Option<u32>;
    fn nth_back(&mut self, n: usize) -> Option<u32>;
    fn try_rfold(&mut self, f: &mut dyn FnMut(u32) -> bool);
    fn rfold(self: Box<Self>, f: &mut dyn FnMut(u32));
    fn rev_next(self: Box<Self>, f: &mut dyn FnMut(u32) -> bool);
}

impl<'a, I, F> It<'a> for W<I, F>
where
    I: Iterator + 'a,
    F: Fn(I::Item) -> u32 + Clone + 'a,
{
    fn next(&mut self) -> Option<u32> {
        self.it.next().map(&self.enc)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn has_back(&self) -> bool {
        self.back.is_some()
    }
    fn can_dup(&self) -> bool {
        self.dup.is_some()
    }
    fn exact(&self) -> Option<usize> {
        self.exact.map(|f| f(&self.it))
    }
    fn dup(&self) -> Option<Box<dyn It<'a> + 'a>> {
        let it = (self.dup?)(&self.it);
        Some(Box::new(W { it, enc: self.enc.clone(), back: self.back, dup: self.dup, exact: self.exact }))
    }
    fn nth(&mut self, n: usize) -> Option<u32> {
        self.it.nth(n).map(&self.enc)
    }
    fn try_fold(&mut self, f: &mut dyn FnMut(u32) -> bool) {
        let enc = &self.enc;
        let _ = self.it.try_fold((), |(), x| if f(enc(x)) { Ok(()) } else { Err(()) });
    }
    fn find_nth(&mut self, n: usize) -> Option<u32> {
        let mut i = 0;
        self.it
            .find(|_| {
                i += 1;
                i > n
            })
            .map(&self.enc)
    }
    fn position(&mut self, want: u32) -> Option<usize> {
        let enc = &self.enc;
        self.it.position(|x| enc(x) == want)
    }
    fn take(&mut self, n: usize) -> Vec<u32> {
        let enc = &self.enc;
        self.it.by_ref().take(n).map(enc).collect()
    }
    fn skip_collect(self: Box<Self>, n: usize) -> Vec<u32> {
        let enc = self.enc;
        self.it.skip(n).map(enc).collect()
    }
    fn step_by_collect(self: Box<Self>, n: usize) -> Vec<u32> {
        let enc = self.enc;
        self.it.step_by(n).map(enc).collect()
    }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(u32)) {
        let W { it, enc, .. } = *self;
        it.fold((), |(), x| f(enc(x)))
    }
    fn collect(self: Box<Self>) -> Vec<u32> {
        let W { it, enc, .. } = *self;
        let v: Vec<_> = it.collect();
        v.into_iter().map(enc).collect()
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last(self: Box<Self>) -> Option<u32> {
        let W { it, enc, .. } = *self;
        it.last().map(enc)
    }
    fn max(self: Box<Self>) -> Option<u32> {
        let W { it, enc, .. } = *self;
        it.map(enc).max()
    }
    fn next_back(&mut self) -> Option<u32> {
        (self.back.unwrap().next_back)(&mut self.it).map(&self.enc)
    }
    fn nth_back(&mut self, n: usize) -> Option<u32> {
        (self.back.unwrap().nth_back)(&mut self.it, n).map(&self.enc)
    }
    fn try_rfold(&mut self, f: &mut dyn FnMut(u32) -> bool) {
        let enc = &self.enc;
        (self.back.unwrap().try_rfold)(&mut self.it, &mut |x| f(enc(x)))
    }
    fn rfold(self: Box<Self>, f: &mut dyn FnMut(u32)) {
        let W { it, enc, back, .. } = *self;
        (back.unwrap().rfold)(it, &mut |x| f(enc(x)))
    }
    fn rev_next(self: Box<Self>, f: &mut dyn FnMut(u32) -> bool) {
        let W { it, enc, back, .. } = *self;
        (back.unwrap().rev_next)(it, &mut |x| f(enc(x)))
    }
}
