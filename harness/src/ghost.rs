//! Stand-ins for collections too long to hold: only their lengths exist.
use crate::sym::*;
use crate::util::*;

/// A child that only counts its elements (each reads as its position), so that
/// ends near the limits of the offset types are reachable.
#[derive(Default, Clone, Copy)]
pub struct Count(pub usize);
/// A row that only has a length.
#[derive(Default, Clone, Copy)]
pub struct Row(pub usize);
pub struct Tick {
    at: usize,
    left: usize,
    steps: usize,
}
impl Tick {
    fn new(n: usize) -> Tick {
        Tick { at: 0, left: n, steps: 0 }
    }
}
impl Iterator for Tick {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        // Consumers that count one by one are only followed for a few steps.
        assume(self.steps < 6);
        self.steps += 1;
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        self.at += 1;
        Some(self.at - 1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
    fn count(self) -> usize {
        self.left
    }
}
impl ExactSizeIterator for Tick {}

macro_rules! counted {
    ($t:ident) => {
        impl Length for $t {
            fn len(&self) -> usize {
                self.0
            }
        }
        impl Collection for $t {
            type View<'c> = usize;
            type Owned = usize;
            fn view(&self, i: usize) -> Option<usize> {
                (i < self.0).then_some(i)
            }
            type Iter<'c> = Tick;
            fn iter_views(&self) -> Tick {
                Tick::new(self.0)
            }
            type IntoIter = Tick;
            fn into_iter_owned(self) -> Tick {
                Tick::new(self.0)
            }
        }
        impl Extend<usize> for $t {
            fn extend<I: IntoIterator<Item = usize>>(&mut self, it: I) {
                self.0 += it.into_iter().count();
            }
        }
        impl FromIterator<usize> for $t {
            fn from_iter<I: IntoIterator<Item = usize>>(it: I) -> $t {
                $t(it.into_iter().count())
            }
        }
        impl CollectionAllocIn for $t {
            type Alloc = ();
            fn with_capacity_in(_: usize, _: ()) -> $t {
                $t(0)
            }
            fn from_iter_in<I: IntoIterator<Item = usize>>(it: I, _: ()) -> $t {
                it.into_iter().collect()
            }
            fn try_with_capacity_in(_: usize, _: ()) -> Result<$t, AllocError> {
                Ok($t(0))
            }
            fn try_from_iter_in<I: IntoIterator<Item = usize>>(it: I, _: ()) -> Result<$t, AllocError> {
                Ok(it.into_iter().collect())
            }
        }
        impl CollectionRealloc for $t {
            fn allocator(&self) {}
            fn try_reserve(&mut self, _: usize) -> Result<(), AllocError> {
                Ok(())
            }
            fn try_extend<I: IntoIterator<Item = usize>>(&mut self, it: I) -> Result<(), AllocError> {
                self.extend(it);
                Ok(())
            }
            fn reserve(&mut self, _: usize) {}
            fn truncate(&mut self, n: usize) {
                if n < self.0 {
                    self.0 = n
                }
            }
        }
    };
}
counted!(Count);
counted!(Row);


/// The first elements of a row, however long it is.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Head {
    pub first: Option<usize>,
    pub second: Option<usize>,
    pub hint: usize,
}
impl FromIterator<usize> for Head {
    fn from_iter<I: IntoIterator<Item = usize>>(it: I) -> Head {
        let mut it = it.into_iter();
        let hint = it.size_hint().0;
        Head { first: it.next(), second: it.next(), hint }
    }
}
