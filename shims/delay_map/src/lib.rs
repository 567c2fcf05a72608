//! Maps whose entries expire: an entry is due once its delay has passed since it was last inserted, and `poll_expired`
//! takes out one that is due. Time is what [`set_now`] says, in seconds.
use core::{
    cell::Cell,
    task::{Context, Poll},
};
use std::time::Duration;
#[cfg(not(kani))]
std::thread_local! { static NOW: Cell<u64> = const { Cell::new(0) }; }
#[cfg(not(kani))]
pub fn now() -> u64 {
    NOW.with(|n| n.get())
}
#[cfg(not(kani))]
pub fn set_now(t: u64) {
    NOW.with(|n| n.set(t))
}
#[cfg(kani)]
// Not zero, since the verifier may merge a static with constants of the same bytes.
static mut NOW: u64 = START;
#[cfg(kani)]
const START: u64 = 0x0071_4d3a_5eed_0b01;
#[cfg(kani)]
pub fn now() -> u64 {
    unsafe { NOW - START }
}
#[cfg(kani)]
pub fn set_now(t: u64) {
    unsafe { NOW = START + t }
}
const CAP: usize = 2;
#[derive(Debug)]
pub struct Error;
struct Slot<K, V> {
    live: bool,
    due: u64,
    entry: core::mem::MaybeUninit<(K, V)>,
}
pub struct HashMapDelay<K, V> {
    slots: [Slot<K, V>; CAP],
    delay: u64,
}
impl<K, V> Slot<K, V> {
    fn entry(&self) -> Option<&(K, V)> {
        if self.live { Some(unsafe { self.entry.assume_init_ref() }) } else { None }
    }
    fn take(&mut self) -> (K, V) {
        assert!(self.live);
        self.live = false;
        unsafe { self.entry.as_ptr().read() }
    }
}
impl<K, V> Drop for HashMapDelay<K, V> {
    fn drop(&mut self) {
        for s in &mut self.slots {
            if s.live {
                drop(s.take());
            }
        }
    }
}
impl<K: PartialEq, V> HashMapDelay<K, V> {
    pub fn new(d: Duration) -> Self {
        Self { slots: [const { Slot { live: false, due: 0, entry: core::mem::MaybeUninit::uninit() } }; CAP], delay: d.as_secs() }
    }
    pub fn insert(&mut self, k: K, v: V) {
        self.insert_at(k, v, Duration::from_secs(self.delay))
    }
    pub fn insert_at(&mut self, k: K, v: V, d: Duration) {
        let due = now() + d.as_secs();
        core::mem::forget(self.remove(&k));
        let mut i = 0;
        while i < CAP {
            if !self.slots[i].live {
                self.slots[i].entry.write((k, v));
                self.slots[i].live = true;
                self.slots[i].due = due;
                return;
            }
            i += 1;
        }
        panic!("model capacity exceeded")
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        let mut i = 0;
        while i < CAP {
            if matches!(self.slots[i].entry(), Some(e) if e.0 == *k) {
                let (k, v) = self.slots[i].take();
                core::mem::forget(k);
                return Some(v);
            }
            i += 1;
        }
        None
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        let mut i = 0;
        while i < CAP {
            match self.slots[i].entry() {
                Some(e) if e.0 == *k => return Some(&e.1),
                _ => i += 1,
            }
        }
        None
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        for s in &mut self.slots {
            if matches!(s.entry(), Some(e) if e.0 == *k) {
                return Some(&mut unsafe { s.entry.assume_init_mut() }.1);
            }
        }
        None
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.get(k).is_some()
    }
    pub fn update_timeout(&mut self, k: &K, d: Duration) -> bool {
        let due = now() + d.as_secs();
        for s in &mut self.slots {
            if matches!(s.entry(), Some(e) if e.0 == *k) {
                s.due = due;
                return true;
            }
        }
        false
    }
    pub fn len(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < CAP {
            n += self.slots[i].live as usize;
            i += 1;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn poll_expired(&mut self, _: &mut Context<'_>) -> Poll<Option<Result<(K, V), Error>>> {
        let mut i = 0;
        while i < CAP {
            if self.slots[i].live && self.slots[i].due <= now() {
                return Poll::Ready(Some(Ok(self.slots[i].take())));
            }
            i += 1;
        }
        if self.is_empty() { Poll::Ready(None) } else { Poll::Pending }
    }
}
