//! Sorting and removing neighbours.
pub trait Itertools: Iterator {
    fn sorted(self) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
        Self::Item: Ord,
    {
        order(collect(self), |a, b| a < b).into_iter()
    }
    fn sorted_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, mut f: F) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
    {
        order(collect(self), |a, b| f(a) < f(b)).into_iter()
    }
    fn sorted_by_cached_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
    {
        self.sorted_by_key(f)
    }
    fn sorted_by<F: FnMut(&Self::Item, &Self::Item) -> core::cmp::Ordering>(self, mut f: F) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
    {
        order(collect(self), |a, b| f(a, b).is_lt()).into_iter()
    }
    fn dedup(self) -> Dedup<Self>
    where
        Self: Sized,
        Self::Item: PartialEq,
    {
        Dedup { it: self, held: None }
    }
}
impl<I: Iterator> Itertools for I {}
fn collect<I: Iterator>(it: I) -> Vec<I::Item> {
    let mut v = Vec::with_capacity(16);
    for x in it {
        v.push(x);
    }
    v
}
/// Stable insertion sort.
fn order<T>(mut v: Vec<T>, mut less: impl FnMut(&T, &T) -> bool) -> Vec<T> {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && less(&v[j], &v[j - 1]) {
            v.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
    v
}
pub struct Dedup<I: Iterator> {
    it: I,
    held: Option<I::Item>,
}
impl<I: Iterator> Iterator for Dedup<I>
where
    I::Item: PartialEq,
{
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let mut cur = match self.held.take() {
            Some(x) => x,
            None => self.it.next()?,
        };
        loop {
            match self.it.next() {
                Some(x) if x == cur => cur = x,
                other => {
                    self.held = other;
                    return Some(cur);
                }
            }
        }
    }
}
