//! Association arrays with the map/set semantics of `std::collections`, bounded by `CAP` entries.
//! Exceeding `CAP` panics with "model capacity", which the runner treats as "no answer".
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::ops::Index;

/// Capacity of the maps: 4 entries, or 8 with the `cap8` feature.
#[cfg(not(feature = "cap8"))]
pub const CAP: usize = 4;
#[cfg(feature = "cap8")]
pub const CAP: usize = 8;

/// The body once per slot, without a loop, so that the maps do not interact with unwinding bounds.
macro_rules! slots {
    ($i:ident, $b:block) => {{
        slots!(@ $i, $b, 0 1 2 3);
        #[cfg(feature = "cap8")]
        {
            slots!(@ $i, $b, 4 5 6 7);
        }
    }};
    (@ $i:ident, $b:block, $($n:tt)*) => { $( { let $i: usize = $n; $b } )* };
}

macro_rules! map_type {
    ($Map:ident, [$($kb:tt)*], $ordered:expr) => {
        pub struct $Map<K, V, S = ()> {
            pub items: [Option<(K, V)>; CAP],
            n: usize,
            _s: ::std::marker::PhantomData<S>,
        }
        impl<K, V, S> Default for $Map<K, V, S> {
            fn default() -> Self {
                Self { items: [const { None }; CAP], n: 0, _s: ::std::marker::PhantomData }
            }
        }
        impl<K, V> $Map<K, V, ()> {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::default()
            }
        }
        impl<K, V, S> $Map<K, V, S> {
            pub fn with_hasher(_: S) -> Self {
                Self::default()
            }
            pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
                Self::default()
            }
            pub fn len(&self) -> usize {
                self.n
            }
            pub fn is_empty(&self) -> bool {
                self.n == 0
            }
            pub fn reserve(&mut self, _: usize) {}
            pub fn shrink_to_fit(&mut self) {}
            pub fn clear(&mut self) {
                self.items = [const { None }; CAP];
                self.n = 0;
            }
            pub fn iter(&self) -> Iter<'_, K, V> {
                Iter { s: &self.items, i: 0, j: self.n }
            }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
                let n = self.n;
                IterMut { s: self.items[..n].iter_mut() }
            }
            pub fn keys(&self) -> Keys<'_, K, V> {
                Keys(self.iter())
            }
            pub fn values(&self) -> Values<'_, K, V> {
                Values(self.iter())
            }
            pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
                ValuesMut(self.iter_mut())
            }
            pub fn into_keys(self) -> impl Iterator<Item = K> {
                self.into_iter().map(|(k, _)| k)
            }
            pub fn into_values(self) -> impl Iterator<Item = V> {
                self.into_iter().map(|(_, v)| v)
            }
            pub fn drain(&mut self) -> IntoIter<K, V> {
                let items = ::std::mem::replace(&mut self.items, [const { None }; CAP]);
                let n = self.n;
                self.n = 0;
                IntoIter { s: items, i: 0, j: n }
            }
            fn remove_at(&mut self, i: usize) -> (K, V) {
                let r = self.items[i].take().unwrap();
                let mut j = i;
                while j + 1 < self.n {
                    self.items[j] = self.items[j + 1].take();
                    j += 1;
                }
                self.n -= 1;
                r
            }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
                let mut i = 0;
                while i < self.n {
                    let keep = match &mut self.items[i] {
                        Some((k, v)) => f(k, v),
                        None => true,
                    };
                    if keep {
                        i += 1;
                    } else {
                        self.remove_at(i);
                    }
                }
            }
        }
        impl<K: $($kb)*, V, S> $Map<K, V, S> {
            fn find<Q: ?Sized + $($kb)*>(&self, k: &Q) -> Option<usize>
            where
                K: Borrow<Q>,
            {
                let mut i = 0;
                while i < self.n {
                    if let Some((a, _)) = &self.items[i] {
                        if a.borrow() == k {
                            return Some(i);
                        }
                    }
                    i += 1;
                }
                None
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                if let Some(i) = self.find(&k) {
                    if let Some((_, b)) = &mut self.items[i] {
                        return Some(::std::mem::replace(b, v));
                    }
                }
                self.push_new(k, v);
                None
            }
            fn push_new(&mut self, k: K, v: V) -> usize {
                if self.n >= CAP {
                    panic!("model capacity exceeded");
                }
                let at = $ordered(&self.items, self.n, &k);
                let mut j = self.n;
                while j > at {
                    self.items[j] = self.items[j - 1].take();
                    j -= 1;
                }
                self.items[at] = Some((k, v));
                self.n += 1;
                at
            }
            pub fn get<Q: ?Sized + $($kb)*>(&self, k: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => self.items[i].as_ref().map(|e| &e.1),
                    None => None,
                }
            }
            pub fn get_key_value<Q: ?Sized + $($kb)*>(&self, k: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => self.items[i].as_ref().map(|e| (&e.0, &e.1)),
                    None => None,
                }
            }
            pub fn get_mut<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => self.items[i].as_mut().map(|e| &mut e.1),
                    None => None,
                }
            }
            pub fn contains_key<Q: ?Sized + $($kb)*>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.find(k).is_some()
            }
            pub fn remove<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                self.find(k).map(|i| self.remove_at(i).1)
            }
            pub fn remove_entry<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                self.find(k).map(|i| self.remove_at(i))
            }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V, $Map<K, V, S>> {
                match self.find(&k) {
                    Some(i) => Entry::Occupied(OccupiedEntry { m: self, i, k, _p: ::std::marker::PhantomData }),
                    None => Entry::Vacant(VacantEntry { m: self, k, _p: ::std::marker::PhantomData }),
                }
            }
        }
        impl<K: $($kb)*, V, S> Slots<K, V> for $Map<K, V, S> {
            fn slot_ref(&self, i: usize) -> &(K, V) {
                self.items[i].as_ref().unwrap()
            }
            fn slot(&mut self, i: usize) -> &mut (K, V) {
                self.items[i].as_mut().unwrap()
            }
            fn put(&mut self, k: K, v: V) -> usize {
                self.push_new(k, v)
            }
            fn take(&mut self, i: usize) -> (K, V) {
                self.remove_at(i)
            }
        }
        impl<K: Clone, V: Clone, S> Clone for $Map<K, V, S> {
            fn clone(&self) -> Self {
                Self { items: self.items.clone(), n: self.n, _s: ::std::marker::PhantomData }
            }
        }
        impl<K: $($kb)*, V: PartialEq, S> PartialEq for $Map<K, V, S> {
            fn eq(&self, o: &Self) -> bool {
                self.n == o.n && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| w == v))
            }
        }
        impl<K: $($kb)* + Eq, V: Eq, S> Eq for $Map<K, V, S> {}
        impl<K, V, S> fmt::Debug for $Map<K, V, S> {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
        impl<K: $($kb)*, V, S> Extend<(K, V)> for $Map<K, V, S> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<K: $($kb)*, V, S> FromIterator<(K, V)> for $Map<K, V, S> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let mut m = Self::default();
                m.extend(it);
                m
            }
        }
        impl<K: $($kb)*, V, const N: usize> From<[(K, V); N]> for $Map<K, V, ()> {
            fn from(a: [(K, V); N]) -> Self {
                a.into_iter().collect()
            }
        }
        impl<K: $($kb)*, Q: ?Sized + $($kb)*, V, S> Index<&Q> for $Map<K, V, S>
        where
            K: Borrow<Q>,
        {
            type Output = V;
            fn index(&self, k: &Q) -> &V {
                self.get(k).expect("no entry found for key")
            }
        }
        impl<K, V, S> IntoIterator for $Map<K, V, S> {
            type Item = (K, V);
            type IntoIter = IntoIter<K, V>;
            fn into_iter(self) -> IntoIter<K, V> {
                IntoIter { s: self.items, i: 0, j: self.n }
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a $Map<K, V, S> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Iter<'a, K, V> {
                self.iter()
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a mut $Map<K, V, S> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = IterMut<'a, K, V>;
            fn into_iter(self) -> IterMut<'a, K, V> {
                self.iter_mut()
            }
        }
    };
}

macro_rules! sparse_map_type {
    ($Map:ident, [$($kb:tt)*]) => {
        pub struct $Map<K, V, S = ()> {
            pub items: [Option<(K, V)>; CAP],
            n: usize,
            _s: ::std::marker::PhantomData<S>,
        }
        impl<K, V, S> Default for $Map<K, V, S> {
            fn default() -> Self {
                Self { items: [const { None }; CAP], n: 0, _s: ::std::marker::PhantomData }
            }
        }
        impl<K, V> $Map<K, V, ()> {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::default()
            }
        }
        impl<K, V, S> $Map<K, V, S> {
            pub fn with_hasher(_: S) -> Self {
                Self::default()
            }
            pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
                Self::default()
            }
            pub fn len(&self) -> usize {
                self.n
            }
            pub fn is_empty(&self) -> bool {
                self.n == 0
            }
            pub fn reserve(&mut self, _: usize) {}
            pub fn shrink_to_fit(&mut self) {}
            pub fn clear(&mut self) {
                self.items = [const { None }; CAP];
                self.n = 0;
            }
            pub fn iter(&self) -> Iter<'_, K, V> {
                Iter { s: &self.items, i: 0, j: CAP }
            }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
                IterMut { s: self.items.iter_mut() }
            }
            pub fn keys(&self) -> Keys<'_, K, V> {
                Keys(self.iter())
            }
            pub fn values(&self) -> Values<'_, K, V> {
                Values(self.iter())
            }
            pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
                ValuesMut(self.iter_mut())
            }
            pub fn into_keys(self) -> impl Iterator<Item = K> {
                self.into_iter().map(|(k, _)| k)
            }
            pub fn into_values(self) -> impl Iterator<Item = V> {
                self.into_iter().map(|(_, v)| v)
            }
            pub fn drain(&mut self) -> IntoIter<K, V> {
                let items = ::std::mem::replace(&mut self.items, [const { None }; CAP]);
                self.n = 0;
                IntoIter { s: items, i: 0, j: CAP }
            }
            fn remove_at(&mut self, i: usize) -> (K, V) {
                self.n -= 1;
                self.items[i].take().unwrap()
            }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
                slots!(i, {
                    let keep = match &mut self.items[i] {
                        Some((k, v)) => f(k, v),
                        None => true,
                    };
                    if !keep {
                        self.items[i] = None;
                        self.n -= 1;
                    }
                });
            }
        }
        impl<K: $($kb)*, V, S> $Map<K, V, S> {
            fn find<Q: ?Sized + $($kb)*>(&self, k: &Q) -> Option<usize>
            where
                K: Borrow<Q>,
            {
                slots!(i, {
                    if let Some((a, _)) = &self.items[i] {
                        if a.borrow() == k {
                            return Some(i);
                        }
                    }
                });
                None
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                if let Some(i) = self.find(&k) {
                    if let Some((_, b)) = &mut self.items[i] {
                        return Some(::std::mem::replace(b, v));
                    }
                }
                self.push_new(k, v);
                None
            }
            fn push_new(&mut self, k: K, v: V) -> usize {
                // `k`/`v` are moved into the first free slot.
                let mut kv = Some((k, v));
                slots!(i, {
                    if self.items[i].is_none() {
                        self.items[i] = kv.take();
                        self.n += 1;
                        return i;
                    }
                });
                panic!("model capacity exceeded")
            }
            pub fn get<Q: ?Sized + $($kb)*>(&self, k: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => self.items[i].as_ref().map(|e| &e.1),
                    None => None,
                }
            }
            pub fn get_key_value<Q: ?Sized + $($kb)*>(&self, k: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => self.items[i].as_ref().map(|e| (&e.0, &e.1)),
                    None => None,
                }
            }
            pub fn get_mut<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => self.items[i].as_mut().map(|e| &mut e.1),
                    None => None,
                }
            }
            pub fn contains_key<Q: ?Sized + $($kb)*>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.find(k).is_some()
            }
            pub fn remove<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                self.find(k).map(|i| self.remove_at(i).1)
            }
            pub fn remove_entry<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                self.find(k).map(|i| self.remove_at(i))
            }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V, $Map<K, V, S>> {
                match self.find(&k) {
                    Some(i) => Entry::Occupied(OccupiedEntry { m: self, i, k, _p: ::std::marker::PhantomData }),
                    None => Entry::Vacant(VacantEntry { m: self, k, _p: ::std::marker::PhantomData }),
                }
            }
        }
        impl<K: $($kb)*, V, S> Slots<K, V> for $Map<K, V, S> {
            fn slot_ref(&self, i: usize) -> &(K, V) {
                self.items[i].as_ref().unwrap()
            }
            fn slot(&mut self, i: usize) -> &mut (K, V) {
                self.items[i].as_mut().unwrap()
            }
            fn put(&mut self, k: K, v: V) -> usize {
                self.push_new(k, v)
            }
            fn take(&mut self, i: usize) -> (K, V) {
                self.remove_at(i)
            }
        }
        impl<K: Clone, V: Clone, S> Clone for $Map<K, V, S> {
            fn clone(&self) -> Self {
                Self { items: self.items.clone(), n: self.n, _s: ::std::marker::PhantomData }
            }
        }
        impl<K: $($kb)*, V: PartialEq, S> PartialEq for $Map<K, V, S> {
            fn eq(&self, o: &Self) -> bool {
                self.n == o.n && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| w == v))
            }
        }
        impl<K: $($kb)* + Eq, V: Eq, S> Eq for $Map<K, V, S> {}
        impl<K, V, S> fmt::Debug for $Map<K, V, S> {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
        impl<K: $($kb)*, V, S> Extend<(K, V)> for $Map<K, V, S> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<K: $($kb)*, V, S> FromIterator<(K, V)> for $Map<K, V, S> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let mut m = Self::default();
                m.extend(it);
                m
            }
        }
        impl<K: $($kb)*, V, const N: usize> From<[(K, V); N]> for $Map<K, V, ()> {
            fn from(a: [(K, V); N]) -> Self {
                a.into_iter().collect()
            }
        }
        impl<K: $($kb)*, Q: ?Sized + $($kb)*, V, S> Index<&Q> for $Map<K, V, S>
        where
            K: Borrow<Q>,
        {
            type Output = V;
            fn index(&self, k: &Q) -> &V {
                self.get(k).expect("no entry found for key")
            }
        }
        impl<K, V, S> IntoIterator for $Map<K, V, S> {
            type Item = (K, V);
            type IntoIter = IntoIter<K, V>;
            fn into_iter(self) -> IntoIter<K, V> {
                IntoIter { s: self.items, i: 0, j: CAP }
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a $Map<K, V, S> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Iter<'a, K, V> {
                self.iter()
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a mut $Map<K, V, S> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = IterMut<'a, K, V>;
            fn into_iter(self) -> IterMut<'a, K, V> {
                self.iter_mut()
            }
        }
    };
}

pub trait Slots<K, V> {
    fn slot_ref(&self, i: usize) -> &(K, V);
    fn slot(&mut self, i: usize) -> &mut (K, V);
    fn put(&mut self, k: K, v: V) -> usize;
    fn take(&mut self, i: usize) -> (K, V);
}

pub enum Entry<'a, K, V, M> {
    Occupied(OccupiedEntry<'a, K, V, M>),
    Vacant(VacantEntry<'a, K, V, M>),
}
pub struct OccupiedEntry<'a, K, V, M> {
    m: &'a mut M,
    i: usize,
    k: K,
    _p: ::std::marker::PhantomData<V>,
}
pub struct VacantEntry<'a, K, V, M> {
    m: &'a mut M,
    k: K,
    _p: ::std::marker::PhantomData<V>,
}
impl<'a, K, V: 'a, M: Slots<K, V>> Entry<'a, K, V, M>
where
    K: 'a,
{
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut());
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => &o.k,
            Entry::Vacant(v) => &v.k,
        }
    }
}
impl<'a, K: 'a, V: 'a, M: Slots<K, V>> OccupiedEntry<'a, K, V, M> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn get(&self) -> &V {
        &self.m.slot_ref(self.i).1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.m.slot(self.i).1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.m.slot(self.i).1
    }
    pub fn insert(&mut self, v: V) -> V {
        ::std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.m.take(self.i).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.m.take(self.i)
    }
}
impl<'a, K: 'a, V: 'a, M: Slots<K, V>> VacantEntry<'a, K, V, M> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn insert(self, v: V) -> &'a mut V {
        let i = self.m.put(self.k, v);
        &mut self.m.slot(i).1
    }
}

pub struct Iter<'a, K, V> {
    s: &'a [Option<(K, V)>; CAP],
    i: usize,
    j: usize,
}
impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter { s: self.s, i: self.i, j: self.j }
    }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        while self.i < self.j {
            let e = self.s[self.i].as_ref();
            self.i += 1;
            if let Some(e) = e {
                return Some((&e.0, &e.1));
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.j - self.i))
    }
}
impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        while self.i < self.j {
            self.j -= 1;
            if let Some(e) = self.s[self.j].as_ref() {
                return Some((&e.0, &e.1));
            }
        }
        None
    }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {
    fn len(&self) -> usize {
        self.clone().count()
    }
}
pub struct IterMut<'a, K, V> {
    s: ::std::slice::IterMut<'a, Option<(K, V)>>,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            match self.s.next() {
                Some(Some(e)) => return Some((&e.0, &mut e.1)),
                Some(None) => {}
                None => return None,
            }
        }
    }
}
pub struct IntoIter<K, V> {
    s: [Option<(K, V)>; CAP],
    i: usize,
    j: usize,
}
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        while self.i < self.j {
            let e = self.s[self.i].take();
            self.i += 1;
            if e.is_some() {
                return e;
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.j - self.i))
    }
}
impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
    fn next_back(&mut self) -> Option<(K, V)> {
        while self.i < self.j {
            self.j -= 1;
            let e = self.s[self.j].take();
            if e.is_some() {
                return e;
            }
        }
        None
    }
}
impl<K, V> ExactSizeIterator for IntoIter<K, V> {
    fn len(&self) -> usize {
        self.s[self.i..self.j].iter().filter(|e| e.is_some()).count()
    }
}
#[derive(Clone)]
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        self.0.next().map(|e| e.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> DoubleEndedIterator for Keys<'a, K, V> {
    fn next_back(&mut self) -> Option<&'a K> {
        self.0.next_back().map(|e| e.0)
    }
}
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
#[derive(Clone)]
pub struct Values<'a, K, V>(Iter<'a, K, V>);
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    fn next(&mut self) -> Option<&'a V> {
        self.0.next().map(|e| e.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> DoubleEndedIterator for Values<'a, K, V> {
    fn next_back(&mut self) -> Option<&'a V> {
        self.0.next_back().map(|e| e.1)
    }
}
impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    fn next(&mut self) -> Option<&'a mut V> {
        self.0.next().map(|e| e.1)
    }
}

fn at_sorted<K: Ord, V>(items: &[Option<(K, V)>; CAP], n: usize, k: &K) -> usize {
    let mut i = 0;
    while i < n {
        if let Some((a, _)) = &items[i] {
            if a > k {
                return i;
            }
        }
        i += 1;
    }
    n
}

sparse_map_type!(HashMap, [PartialEq]);
map_type!(BTreeMap, [Ord], at_sorted);

impl<K: Ord, V> BTreeMap<K, V> {
    pub fn first_key_value(&self) -> Option<(&K, &V)> {
        self.iter().next()
    }
    pub fn last_key_value(&self) -> Option<(&K, &V)> {
        self.iter().next_back()
    }
    pub fn pop_first(&mut self) -> Option<(K, V)> {
        if self.n == 0 {
            None
        } else {
            Some(self.remove_at(0))
        }
    }
    pub fn pop_last(&mut self) -> Option<(K, V)> {
        if self.n == 0 {
            None
        } else {
            Some(self.remove_at(self.n - 1))
        }
    }
    pub fn range<R: ::std::ops::RangeBounds<K>>(&self, r: R) -> Iter<'_, K, V> {
        let mut i = 0;
        while i < self.n && !matches!(&self.items[i], Some((k, _)) if after_start(&r, k)) {
            i += 1;
        }
        let mut j = self.n;
        while j > i && !matches!(&self.items[j - 1], Some((k, _)) if before_end(&r, k)) {
            j -= 1;
        }
        Iter { s: &self.items, i, j }
    }
}
fn after_start<K: Ord, R: ::std::ops::RangeBounds<K>>(r: &R, k: &K) -> bool {
    match r.start_bound() {
        ::std::ops::Bound::Included(a) => k >= a,
        ::std::ops::Bound::Excluded(a) => k > a,
        ::std::ops::Bound::Unbounded => true,
    }
}
fn before_end<K: Ord, R: ::std::ops::RangeBounds<K>>(r: &R, k: &K) -> bool {
    match r.end_bound() {
        ::std::ops::Bound::Included(a) => k <= a,
        ::std::ops::Bound::Excluded(a) => k < a,
        ::std::ops::Bound::Unbounded => true,
    }
}

pub mod hash_map {
    pub use super::{Entry, HashMap, IntoIter, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut};
    #[derive(Clone, Copy, Debug, Default)]
    pub struct RandomState;
}

macro_rules! set_type {
    ($Set:ident, $Map:ident, [$($kb:tt)*]) => {
        pub struct $Set<K, S = ()>($Map<K, (), S>);
        impl<K, S> Default for $Set<K, S> {
            fn default() -> Self {
                Self($Map::default())
            }
        }
        impl<K> $Set<K, ()> {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::default()
            }
        }
        impl<K, S> $Set<K, S> {
            pub fn len(&self) -> usize {
                self.0.len()
            }
            pub fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
            pub fn clear(&mut self) {
                self.0.clear()
            }
            pub fn iter(&self) -> Keys<'_, K, ()> {
                self.0.keys()
            }
            pub fn drain(&mut self) -> impl Iterator<Item = K> {
                self.0.drain().map(|e| e.0)
            }
            pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) {
                self.0.retain(|k, _| f(k))
            }
        }
        impl<K: $($kb)*, S> $Set<K, S> {
            pub fn insert(&mut self, k: K) -> bool {
                if self.0.contains_key(&k) {
                    false
                } else {
                    self.0.insert(k, ());
                    true
                }
            }
            pub fn replace(&mut self, k: K) -> Option<K> {
                let old = self.0.remove_entry(&k).map(|e| e.0);
                self.0.insert(k, ());
                old
            }
            pub fn contains<Q: ?Sized + $($kb)*>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.0.contains_key(k)
            }
            pub fn get<Q: ?Sized + $($kb)*>(&self, k: &Q) -> Option<&K>
            where
                K: Borrow<Q>,
            {
                self.0.get_key_value(k).map(|e| e.0)
            }
            pub fn remove<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.0.remove(k).is_some()
            }
            pub fn take<Q: ?Sized + $($kb)*>(&mut self, k: &Q) -> Option<K>
            where
                K: Borrow<Q>,
            {
                self.0.remove_entry(k).map(|e| e.0)
            }
            pub fn is_subset(&self, o: &Self) -> bool {
                self.iter().all(|k| o.contains(k))
            }
            pub fn difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> + 'a {
                self.iter().filter(move |k| !o.contains(*k))
            }
            pub fn intersection<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> + 'a {
                self.iter().filter(move |k| o.contains(*k))
            }
            pub fn union<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a K> + 'a {
                self.iter().chain(o.iter().filter(move |k| !self.contains(*k)))
            }
        }
        impl<K: Clone, S> Clone for $Set<K, S> {
            fn clone(&self) -> Self {
                Self(self.0.clone())
            }
        }
        impl<K: $($kb)*, S> PartialEq for $Set<K, S> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<K: $($kb)* + Eq, S> Eq for $Set<K, S> {}
        impl<K, S> fmt::Debug for $Set<K, S> {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
        impl<K: $($kb)*, S> Extend<K> for $Set<K, S> {
            fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
                for k in it {
                    self.insert(k);
                }
            }
        }
        impl<K: $($kb)*, S> FromIterator<K> for $Set<K, S> {
            fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
                let mut m = Self::default();
                m.extend(it);
                m
            }
        }
        impl<K: $($kb)*, const N: usize> From<[K; N]> for $Set<K, ()> {
            fn from(a: [K; N]) -> Self {
                a.into_iter().collect()
            }
        }
        impl<K, S> IntoIterator for $Set<K, S> {
            type Item = K;
            type IntoIter = SetIntoIter<K>;
            fn into_iter(self) -> SetIntoIter<K> {
                SetIntoIter(self.0.into_iter())
            }
        }
        impl<'a, K, S> IntoIterator for &'a $Set<K, S> {
            type Item = &'a K;
            type IntoIter = Keys<'a, K, ()>;
            fn into_iter(self) -> Keys<'a, K, ()> {
                self.0.keys()
            }
        }
    };
}
pub struct SetIntoIter<K>(IntoIter<K, ()>);
impl<K> Iterator for SetIntoIter<K> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        self.0.next().map(|e| e.0)
    }
}
set_type!(HashSet, HashMap, [PartialEq]);
set_type!(BTreeSet, BTreeMap, [Ord]);
