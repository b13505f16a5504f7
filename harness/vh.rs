//! Harness support. In the symbolic build the `sym_*` functions are left undefined and are given a
//! meaning by irsym; in the native build (replay, witness validation) they read recorded inputs.
#![allow(dead_code)]

#[cfg(not(vh_native))]
mod sys {
    unsafe extern "C" {
        pub fn sym_i32(id: u32, lo: i32, hi: i32) -> i32;
        pub fn sym_i64(id: u32, lo: i64, hi: i64) -> i64;
        pub fn sym_f64(id: u32) -> f64;
        pub fn sym_f32(id: u32) -> f32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_out(id: u32, v: i64);
        pub fn sym_pick(v: i64) -> i64;
    }
}
#[cfg(vh_native)]
pub mod sys {
    use std::cell::RefCell;
    use std::collections::HashMap;
    #[derive(Default)]
    pub struct Io { pub ints: HashMap<u32, i128>, pub floats: HashMap<u32, u64>, pub outs: Vec<(u32, i64)>, pub fails: Vec<u32> }
    thread_local! { pub static IO: RefCell<Io> = RefCell::new(Io::default()); }
    pub struct AssumeFailed;
    pub unsafe fn sym_i32(id: u32, lo: i32, hi: i32) -> i32 { unsafe { sym_i64(id, lo as i64, hi as i64) as i32 } }
    pub unsafe fn sym_i64(id: u32, lo: i64, hi: i64) -> i64 {
        let v = IO.with(|io| io.borrow().ints.get(&id).cloned());
        let v = v.unwrap_or(if lo <= 0 && hi >= 0 { 0 } else { lo as i128 });
        if v < lo as i128 || v > hi as i128 { std::panic::panic_any(AssumeFailed) }
        v as i64
    }
    pub unsafe fn sym_f64(id: u32) -> f64 { f64::from_bits(IO.with(|io| io.borrow().floats.get(&id).cloned().unwrap_or(0))) }
    pub unsafe fn sym_f32(id: u32) -> f32 { f32::from_bits(IO.with(|io| io.borrow().floats.get(&id).cloned().unwrap_or(0)) as u32) }
    pub unsafe fn sym_assume(c: bool) { if !c { std::panic::panic_any(AssumeFailed) } }
    pub unsafe fn sym_assert(c: bool, id: u32) { if !c { IO.with(|io| io.borrow_mut().fails.push(id)) } }
    pub unsafe fn sym_cover(_: u32) {}
    pub unsafe fn sym_out(id: u32, v: i64) { IO.with(|io| io.borrow_mut().outs.push((id, v))) }
    pub unsafe fn sym_pick(v: i64) -> i64 { v }

    /// one line "harness inputs" -> one line "status outs"
    pub fn run_line(line: &str, table: &dyn Fn(&str) -> Option<fn()>) -> String {
        let mut it = line.split_whitespace();
        let name = it.next().unwrap_or("");
        let ins = it.next().unwrap_or("");
        let mut io = Io::default();
        for kv in ins.split(',').filter(|s| !s.is_empty()) {
            let (k, v) = kv.split_once('=').unwrap();
            if let Some(f) = k.strip_prefix('f') { io.floats.insert(f.parse().unwrap(), v.parse().unwrap()); } else { io.ints.insert(k.parse().unwrap(), v.parse().unwrap()); }
        }
        IO.with(|x| *x.borrow_mut() = io);
        let f = match table(name) { Some(f) => f, None => return "nofn".into() };
        let r = std::panic::catch_unwind(f);
        let (outs, fails) = IO.with(|x| { let x = x.borrow(); (x.outs.iter().map(|(i, v)| format!("{}={}", i, v)).collect::<Vec<_>>().join(","), x.fails.clone()) });
        let st = match r {
            Ok(()) => if fails.is_empty() { "ok".to_string() } else { format!("fail:{}", fails.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("+")) },
            Err(e) => if e.is::<AssumeFailed>() { if fails.is_empty() { "assume".into() } else { format!("fail:{}", fails[0]) } } else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic:{}", m.replace(char::is_whitespace, "_"))
            },
        };
        format!("{} {}", st, outs)
    }
}

#[inline(always)] pub fn i32s(id: u32, lo: i32, hi: i32) -> i32 { unsafe { sys::sym_i32(id, lo, hi) } }
#[inline(always)] pub fn i64s(id: u32, lo: i64, hi: i64) -> i64 { unsafe { sys::sym_i64(id, lo, hi) } }
#[inline(always)] pub fn f64s(id: u32) -> f64 { unsafe { sys::sym_f64(id) } }
#[inline(always)] pub fn f32s(id: u32) -> f32 { unsafe { sys::sym_f32(id) } }
/// restrict the inputs
#[inline(always)] pub fn assume(c: bool) { unsafe { sys::sym_assume(c) } }
/// the property; `id` names the clause
#[inline(always)] pub fn check(c: bool, id: u32) { unsafe { sys::sym_assert(c, id) } }
/// vacuity guard: some explored path must reach this
#[inline(always)] pub fn cover(id: u32) { unsafe { sys::sym_cover(id) } }
/// observable result, compared with the native run on every witness
#[inline(always)] pub fn out(id: u32, v: i64) { unsafe { sys::sym_out(id, v) } }
/// case-split on a value
#[inline(always)] pub fn pick(v: i64) -> i64 { unsafe { sys::sym_pick(v) } }
/// a choice 0..n, one path each
#[inline(always)] pub fn choose(id: u32, n: i32) -> i32 { pick(i32s(id, 0, n - 1) as i64) as i32 }

#[cfg(not(vh_native))]
#[macro_export]
macro_rules! harness { ($name:ident, $body:block) => { #[unsafe(no_mangle)] pub extern "C" fn $name() $body } }
#[cfg(vh_native)]
#[macro_export]
macro_rules! harness { ($name:ident, $body:block) => { pub fn $name() $body } }

/// std::collections, with HashMap / HashSet replaced in the symbolic build by association lists
/// (same contract, iteration in insertion order). The native build uses the real ones.
#[cfg(vh_native)]
pub mod coll { pub use std::collections::*; }
#[cfg(not(vh_native))]
pub mod coll {
    pub use std::collections::*;
    use std::borrow::Borrow;
    use std::hash::Hash;

    #[derive(Debug, Clone)]
    pub struct HashMap<K, V> { items: Vec<(K, V)> }
    impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self { items: Vec::new() } } }
    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self { Self { items: Vec::new() } }
        pub fn with_capacity(n: usize) -> Self { Self { items: Vec::with_capacity(n) } }
        pub fn len(&self) -> usize { self.items.len() }
        pub fn is_empty(&self) -> bool { self.items.is_empty() }
        pub fn clear(&mut self) { self.items.clear() }
        pub fn capacity(&self) -> usize { self.items.capacity() }
        pub fn reserve(&mut self, n: usize) { self.items.reserve(n) }
        pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.items.iter().map(|(k, v)| (k, v)) }
        pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.items.iter_mut().map(|(k, v)| (&*k, v)) }
        pub fn keys(&self) -> impl Iterator<Item = &K> { self.items.iter().map(|x| &x.0) }
        pub fn values(&self) -> impl Iterator<Item = &V> { self.items.iter().map(|x| &x.1) }
        pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.items.iter_mut().map(|x| &mut x.1) }
        pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> + '_ { self.items.drain(..) }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.items.retain_mut(|(k, v)| f(k, v)) }
    }
    impl<K: Eq + Hash, V> HashMap<K, V> {
        fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < self.items.len() { if self.items[i].0.borrow() == k { return Some(i) } i += 1; }
            None
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&self.items[i].1), None => None } }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.items[i].1), None => None } }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.pos(&k) { Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)), None => { self.items.push((k, v)); None } }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.items.remove(i).1), None => None } }
        pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(self.items.remove(i)), None => None } }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { Entry { i: self.pos(&k), m: self, k } }
    }
    pub struct Entry<'a, K, V> { m: &'a mut HashMap<K, V>, i: Option<usize>, k: K }
    impl<'a, K: Eq + Hash, V> Entry<'a, K, V> {
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            let i = match self.i { Some(i) => i, None => { self.m.items.push((self.k, f())); self.m.items.len() - 1 } };
            &mut self.m.items[i].1
        }
        pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self { if let Some(i) = self.i { f(&mut self.m.items[i].1) } self }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); for (k, v) in it { m.insert(k, v); } m } }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
    impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.items.into_iter() } }

    #[derive(Debug, Clone)]
    pub struct HashSet<K> { m: HashMap<K, ()> }
    impl<K> Default for HashSet<K> { fn default() -> Self { Self { m: HashMap::new() } } }
    impl<K> HashSet<K> {
        pub fn new() -> Self { Self { m: HashMap::new() } }
        pub fn with_capacity(n: usize) -> Self { Self { m: HashMap::with_capacity(n) } }
        pub fn len(&self) -> usize { self.m.len() }
        pub fn is_empty(&self) -> bool { self.m.is_empty() }
        pub fn clear(&mut self) { self.m.clear() }
        pub fn iter(&self) -> impl Iterator<Item = &K> { self.m.keys() }
    }
    impl<K: Eq + Hash> HashSet<K> {
        pub fn insert(&mut self, k: K) -> bool { if self.m.contains_key(&k) { false } else { self.m.insert(k, ()); true } }
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.m.remove(k).is_some() }
    }
    impl<K: Eq + Hash> FromIterator<K> for HashSet<K> { fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut m = Self::new(); for k in it { m.insert(k); } m } }
}
