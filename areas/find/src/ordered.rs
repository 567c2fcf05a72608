//! Ordered maps keyed by distance, under the verifier: one slot per distance, so that a peer's slot does not depend on
//! which others are present. Same meaning as the ordered maps of the standard library.
use core::mem::MaybeUninit;
pub const SLOTS: usize = 4;
/// Keys with few values: their rank.
pub trait Rank: Ord + Clone {
    fn rank(&self) -> usize;
}
impl Rank for crate::kbucket::Distance {
    fn rank(&self) -> usize {
        self.0 as usize / 2
    }
}
pub struct BTreeMap<K, V> {
    live: [bool; SLOTS],
    slots: [MaybeUninit<(K, V)>; SLOTS],
}
impl<K, V> Default for BTreeMap<K, V> {
    fn default() -> Self {
        BTreeMap { live: [false; SLOTS], slots: [const { MaybeUninit::uninit() }; SLOTS] }
    }
}
impl<K, V> core::fmt::Debug for BTreeMap<K, V> {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
    fn clone(&self) -> Self {
        let mut m = Self::default();
        let mut i = 0;
        while i < SLOTS {
            if self.live[i] {
                m.live[i] = true;
                m.slots[i] = MaybeUninit::new(self.at(i).clone());
            }
            i += 1;
        }
        m
    }
}
impl<K, V> BTreeMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    fn at(&self, i: usize) -> &(K, V) {
        unsafe { self.slots[i].assume_init_ref() }
    }
    fn at_mut(&mut self, i: usize) -> &mut (K, V) {
        unsafe { self.slots[i].assume_init_mut() }
    }
    fn out(&mut self, i: usize) -> (K, V) {
        self.live[i] = false;
        unsafe { self.slots[i].assume_init_read() }
    }
    pub fn len(&self) -> usize {
        let (mut i, mut n) = (0, 0);
        while i < SLOTS {
            n += self.live[i] as usize;
            i += 1;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { m: self, i: 0 }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut { m: self, i: 0, p: core::marker::PhantomData }
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.iter().map(|e| e.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.iter().map(|e| e.1)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
        self.iter_mut().map(|e| e.1)
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.into_iter().map(|e| e.1)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.into_iter().map(|e| e.0)
    }
    pub fn first_key_value(&self) -> Option<(&K, &V)> {
        self.iter().next()
    }
    pub fn clear(&mut self) {
        self.live = [false; SLOTS];
    }
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let mut i = 0;
        while i < SLOTS {
            if self.live[i] {
                let e = self.at_mut(i);
                let keep = f(&e.0, &mut e.1);
                self.live[i] = keep;
            }
            i += 1;
        }
    }
}
impl<K: Rank, V> BTreeMap<K, V> {
    fn find(&self, k: &K) -> usize {
        let r = k.rank();
        assert!(r < SLOTS, "model capacity exceeded");
        r
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        let i = self.find(k);
        if self.live[i] { Some(&self.at(i).1) } else { None }
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        let i = self.find(k);
        if self.live[i] { Some(&mut self.at_mut(i).1) } else { None }
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.live[self.find(k)]
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let i = self.find(&k);
        if self.live[i] {
            return Some(core::mem::replace(&mut self.at_mut(i).1, v));
        }
        self.live[i] = true;
        self.slots[i] = MaybeUninit::new((k, v));
        None
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        let i = self.find(k);
        if self.live[i] { Some(self.out(i).1) } else { None }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        let i = self.find(&k);
        if self.live[i] { Entry::Occupied(OccupiedEntry { m: self, i }) } else { Entry::Vacant(VacantEntry { m: self, i, k }) }
    }
}
impl<K: Rank, V> FromIterator<(K, V)> for BTreeMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<K: Rank, V> Extend<(K, V)> for BTreeMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    m: &'a mut BTreeMap<K, V>,
    i: usize,
}
pub struct VacantEntry<'a, K, V> {
    m: &'a mut BTreeMap<K, V>,
    i: usize,
    k: K,
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut())
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => e.key(),
            Entry::Vacant(e) => e.key(),
        }
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.m.at(self.i).0
    }
    pub fn get(&self) -> &V {
        &self.m.at(self.i).1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.m.at_mut(self.i).1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.m.at_mut(self.i).1
    }
    pub fn insert(&mut self, v: V) -> V {
        core::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.m.out(self.i).1
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn insert(self, v: V) -> &'a mut V {
        self.m.live[self.i] = true;
        self.m.slots[self.i] = MaybeUninit::new((self.k, v));
        &mut self.m.at_mut(self.i).1
    }
}
// The iterators visit the slots by constant positions, skipping those before the cursor.
macro_rules! steps {
    ($Item:ty, $m:ident, $i:ident, $e:expr) => {
        type Item = $Item;
        fn next(&mut self) -> Option<Self::Item> {
            self.find_map(Some)
        }
        fn find_map<B, F: FnMut(Self::Item) -> Option<B>>(&mut self, mut f: F) -> Option<B> {
            let mut $i = 0;
            while $i < SLOTS {
                if $i >= self.i {
                    let $m = &mut *self;
                    if $m.live($i) {
                        let e = $e;
                        if let Some(b) = f(e) {
                            self.i = $i + 1;
                            return Some(b);
                        }
                    }
                }
                $i += 1;
            }
            self.i = SLOTS;
            None
        }
    };
}
pub struct Iter<'a, K, V> {
    m: &'a BTreeMap<K, V>,
    i: usize,
}
impl<'a, K, V> Iter<'a, K, V> {
    fn live(&self, i: usize) -> bool {
        self.m.live[i]
    }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    steps!((&'a K, &'a V), s, i, {
        let e = s.m.at(i);
        (&e.0, &e.1)
    });
}
pub struct IterMut<'a, K, V> {
    m: *mut BTreeMap<K, V>,
    i: usize,
    p: core::marker::PhantomData<&'a mut (K, V)>,
}
impl<'a, K, V> IterMut<'a, K, V> {
    fn live(&self, i: usize) -> bool {
        unsafe { (*self.m).live[i] }
    }
}
impl<'a, K: 'a, V: 'a> Iterator for IterMut<'a, K, V> {
    steps!((&'a K, &'a mut V), s, i, {
        let m: &'a mut BTreeMap<K, V> = unsafe { &mut *s.m };
        let e = m.at_mut(i);
        (&e.0, &mut e.1)
    });
}
pub struct IntoIter<K, V> {
    m: BTreeMap<K, V>,
    i: usize,
}
impl<K, V> IntoIter<K, V> {
    fn live(&self, i: usize) -> bool {
        self.m.live[i]
    }
}
impl<K, V> Iterator for IntoIter<K, V> {
    steps!((K, V), s, i, s.m.out(i));
}
impl<K, V> IntoIterator for BTreeMap<K, V> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        IntoIter { m: self, i: 0 }
    }
}
impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut BTreeMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}

/// A queue of few elements.
#[derive(Clone, Debug)]
pub struct VecDeque<T> {
    items: [Option<T>; SLOTS],
    n: usize,
}
impl<T> Default for VecDeque<T> {
    fn default() -> Self {
        VecDeque { items: [const { None }; SLOTS], n: 0 }
    }
}
impl<T> VecDeque<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn push_back(&mut self, t: T) {
        assert!(self.n < SLOTS, "model capacity exceeded");
        self.items[self.n] = Some(t);
        self.n += 1;
    }
    pub fn push_front(&mut self, t: T) {
        assert!(self.n < SLOTS, "model capacity exceeded");
        let mut i = SLOTS - 1;
        while i > 0 {
            self.items[i] = self.items[i - 1].take();
            i -= 1;
        }
        self.items[0] = Some(t);
        self.n += 1;
    }
    pub fn front(&self) -> Option<&T> {
        self.items[0].as_ref()
    }
    pub fn back(&self) -> Option<&T> {
        if self.n == 0 { None } else { self.items[self.n - 1].as_ref() }
    }
    pub fn pop_front(&mut self) -> Option<T> {
        let r = self.items[0].take();
        if r.is_some() {
            let mut i = 1;
            while i < SLOTS {
                self.items[i - 1] = self.items[i].take();
                i += 1;
            }
            self.n -= 1;
        }
        r
    }
    pub fn pop_back(&mut self) -> Option<T> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        self.items[self.n].take()
    }
    pub fn iter(&self) -> impl Iterator<Item = &T> {
        self.items.iter().flatten()
    }
    pub fn contains(&self, t: &T) -> bool
    where
        T: PartialEq,
    {
        self.iter().any(|x| x == t)
    }
    pub fn clear(&mut self) {
        *self = Self::default();
    }
}
