//! The iterators through the other methods of `Iterator` and `DoubleEndedIterator`, and clones of
//! half-consumed iterators: P14–P18.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// `OP`: 0 `nth`, 1 `count`, 2 `last`, 3 `for_each`, 4 a clone, 5 `size_hint`, 6 `find`, 7 `collect`.
/// `it` has `n` items, the `k`-th of which satisfies `good(.., k)`.
#[inline(always)]
fn forward<I, X, G, const N: usize>(r: &mut Rd, mut it: I, n: usize, op: u8, good: G)
where
    I: Iterator<Item = X> + Clone,
    G: Fn(X, usize) -> bool,
{
    let mut lo = 0;
    let steps = r.below(3);
    let mut i = 0;
    while i < 2 {
        if i < steps && lo < n {
            chk(it.next().map_or(false, |x| good(x, lo)), "order of the items");
            lo += 1;
        }
        i += 1;
    }
    let is = |x: Option<X>, k: usize, some: bool| match x {
        None => !some,
        Some(x) => some && good(x, k),
    };
    match op {
        0 => {
            let k = r.below(N);
            chk(is(it.nth(k), lo + k, lo + k < n), "nth item");
            lo += k + 1;
            chk(is(it.next(), lo, lo < n), "the item after the nth one");
        }
        1 => chk(it.count() == n - lo, "number of the remaining items"),
        2 => chk(is(it.last(), n.wrapping_sub(1), lo < n), "last item"),
        3 => {
            let mut ok = true;
            let mut k = lo;
            it.for_each(|x| {
                ok &= k < n && good(x, k);
                k += 1;
            });
            chk(ok && k == n, "items given to a closure");
        }
        4 => {
            let mut c = it.clone();
            let first = r.bit();
            if first {
                chk(is(it.next(), lo, lo < n), "the next item after cloning");
            }
            chk(is(c.next(), lo, lo < n), "the next item of the clone");
            chk(is(c.next(), lo + 1, lo + 1 < n), "the item after it of the clone");
            if !first {
                chk(is(it.next(), lo, lo < n), "the next item after using the clone");
            }
            chk(is(it.next(), lo + 1, lo + 1 < n), "the item after it, after using the clone");
        }
        5 => {
            let (a, b) = it.size_hint();
            chk(a <= n - lo && b.map_or(true, |b| b >= n - lo), "size hint");
        }
        6 => {
            let k = r.below(N);
            let mut seen = 0;
            let x = it.find(|_| {
                seen += 1;
                seen == k + 1
            });
            chk(is(x, lo + k, lo + k < n), "item that is found");
            lo += k + 1;
            chk(is(it.next(), lo, lo < n), "the item after the one that is found");
        }
        _ => {
            let v: Vec<X> = it.collect();
            chk(v.len() == n - lo, "number of the items that are collected");
            let mut k = lo;
            for x in v {
                chk(k < n && good(x, k), "items that are collected");
                k += 1;
            }
        }
    }
    cover(steps == 2, "after two items");
}

/// `OP`: 0..=7 as above, but after steps from both ends; 8 `nth_back`, 9 `rev` and `for_each`,
/// 10 a clone used from behind, 11 `rfind`.
#[inline(always)]
fn both<I, X, G, const N: usize>(r: &mut Rd, mut it: I, n: usize, op: u8, good: G)
where
    I: DoubleEndedIterator<Item = X> + Clone,
    G: Fn(X, usize) -> bool,
{
    let (mut lo, mut hi) = (0, n);
    let mut i = 0;
    let mut steps = 0;
    while i < 2 {
        let s = r.below(3);
        if s > 0 && lo < hi {
            steps += 1;
            if s == 1 {
                chk(it.next().map_or(false, |x| good(x, lo)), "order of the items");
                lo += 1;
            } else {
                hi -= 1;
                chk(it.next_back().map_or(false, |x| good(x, hi)), "order of the items from behind");
            }
        }
        i += 1;
    }
    let is = |x: Option<X>, k: usize, some: bool| match x {
        None => !some,
        Some(x) => some && good(x, k),
    };
    match op {
        0 => {
            let k = r.below(N);
            chk(is(it.nth(k), lo + k, lo + k < hi), "nth item");
            lo += k + 1;
            chk(is(it.next_back(), hi.wrapping_sub(1), lo < hi), "the last item after the nth one");
        }
        1 => chk(it.count() == hi - lo, "number of the remaining items"),
        2 => chk(is(it.last(), hi.wrapping_sub(1), lo < hi), "last item"),
        3 => {
            let mut ok = true;
            let mut k = lo;
            it.for_each(|x| {
                ok &= k < hi && good(x, k);
                k += 1;
            });
            chk(ok && k == hi, "items given to a closure");
        }
        4 => {
            let mut c = it.clone();
            chk(is(it.next(), lo, lo < hi), "the next item after cloning");
            chk(is(c.next_back(), hi.wrapping_sub(1), lo < hi), "the last item of the clone");
            chk(is(c.next(), lo, lo + 1 < hi), "the next item of the clone");
            chk(is(it.next_back(), hi.wrapping_sub(1), lo + 1 < hi), "the last item after using the clone");
        }
        5 => {
            let (a, b) = it.size_hint();
            chk(a <= hi - lo && b.map_or(true, |b| b >= hi - lo), "size hint");
        }
        6 => {
            let k = r.below(N);
            let mut seen = 0;
            let x = it.find(|_| {
                seen += 1;
                seen == k + 1
            });
            chk(is(x, lo + k, lo + k < hi), "item that is found");
            lo += k + 1;
            chk(is(it.next(), lo, lo < hi), "the item after the one that is found");
        }
        7 => {
            let v: Vec<X> = it.collect();
            chk(v.len() == hi - lo, "number of the items that are collected");
            let mut k = lo;
            for x in v {
                chk(k < hi && good(x, k), "items that are collected");
                k += 1;
            }
        }
        8 => {
            let k = r.below(N);
            chk(is(it.nth_back(k), hi.wrapping_sub(k + 1), lo + k < hi), "nth item from behind");
            let some = lo + k + 1 < hi;
            chk(is(it.next(), lo, some), "the next item after the nth one from behind");
        }
        9 => {
            let mut ok = true;
            let mut k = hi;
            it.rev().for_each(|x| {
                k = k.wrapping_sub(1);
                ok &= k >= lo && k < hi && good(x, k);
            });
            chk(ok && k == lo, "items given to a closure from behind");
        }
        10 => {
            let mut c = it.clone();
            chk(is(c.next_back(), hi.wrapping_sub(1), lo < hi), "the last item of the clone");
            chk(is(c.next_back(), hi.wrapping_sub(2), lo + 1 < hi), "the item before it of the clone");
            chk(is(it.next(), lo, lo < hi), "the next item after using the clone");
            chk(is(it.next(), lo + 1, lo + 1 < hi), "the item after it, after using the clone");
        }
        _ => {
            let k = r.below(N);
            let mut seen = 0;
            let x = it.rfind(|_| {
                seen += 1;
                seen == k + 1
            });
            chk(is(x, hi.wrapping_sub(k + 1), lo + k < hi), "item that is found from behind");
            let some = lo + k + 1 < hi;
            chk(is(it.next_back(), hi.wrapping_sub(k + 2), some), "the item before the one that is found");
        }
    }
    cover(steps == 2, "after two items");
}

#[inline(always)]
fn place<const N: usize>(m: &M<N>, ids: &[VId; N], ev: DftEvent<Node<'_, VId, u8>>) -> (usize, usize) {
    let (n, open) = match ev {
        DftEvent::Open(n) => (n, true),
        DftEvent::Close(n) => (n, false),
    };
    let j = idx(ids, n.id());
    if j >= N || *n.data() != m.data[j] {
        return (N, 999);
    }
    (j, if open { m.open[j] as usize } else { m.close[j] as usize })
}

pub fn dft<const N: usize, const C: u8, const OP: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let o = m.open[x] as usize;
    both::<_, _, _, N>(&mut r, f.depth_first_traverse(ids[x]), 2 * m.size(x), OP, |ev, k| {
        let (j, p) = place(&m, &ids, ev);
        j < N && m.root[j] == m.root[x] && p == o + k
    });
}

pub fn shallow<const N: usize, const C: u8, const OP: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let l = r.below(N);
    let base = m.depth[x] as usize;
    let within = |i: usize| m.in_sub(x, i) && m.depth[i] as usize - base <= l;
    let mut n = 0;
    let mut i = 0;
    while i < N {
        if within(i) {
            n += 2;
        }
        i += 1;
    }
    both::<_, _, _, N>(&mut r, f.shallow_depth_first_traverse(ids[x], Some(l)), n, OP, |(ev, d), k| {
        let (j, p) = place(&m, &ids, ev);
        if j >= N || !within(j) || d != m.depth[j] as usize - base {
            return false;
        }
        // The number of events before it.
        let mut c = 0;
        let mut i = 0;
        while i < N {
            if within(i) {
                c += ((m.open[i] as usize) < p) as usize + ((m.close[i] as usize) < p) as usize;
            }
            i += 1;
        }
        c == k
    });
}

/// `HOW`: 0 not allocating, 1 allocating.
pub fn bft<const N: usize, const C: u8, const HOW: u8, const OP: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let good = |(n, d): (Node<'_, VId, u8>, usize), k: usize| {
        let j = idx(&ids, n.id());
        if j >= N || !m.in_sub(x, j) || d + m.depth[x] as usize != m.depth[j] as usize || *n.data() != m.data[j] {
            return false;
        }
        let mut c = 0;
        let mut i = 0;
        while i < N {
            c += (m.in_sub(x, i) & ((m.depth[i] < m.depth[j]) | ((m.depth[i] == m.depth[j]) & (m.open[i] < m.open[j])))) as usize;
            i += 1;
        }
        c == k
    };
    if HOW == 0 {
        forward::<_, _, _, N>(&mut r, f.breadth_first_traverse(ids[x]), m.size(x), OP, good)
    } else {
        forward::<_, _, _, N>(&mut r, f.allocating_breadth_first_traverse(ids[x]), m.size(x), OP, good)
    }
}

/// `K` as for `iter::siblings`.
pub fn siblings<const N: usize, const C: u8, const K: u8, const OP: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let it = match K {
        0 => f.children(ids[x]),
        1 => f.following_siblings(ids[x]),
        2 => f.following_siblings_or_self(ids[x]),
        3 => f.preceding_siblings(ids[x]),
        _ => f.preceding_siblings_or_self(ids[x]),
    };
    let p = m.parent[x];
    let inside = |i: usize| {
        m.alive[i]
            && match K {
                0 => m.parent[i] == x as u8,
                _ if i == x => K == 2 || K == 4,
                _ => p != M::<N>::NONE && m.parent[i] == p && (m.open[i] > m.open[x]) == (K <= 2),
            }
    };
    let mut n = 0;
    let mut i = 0;
    while i < N {
        n += inside(i) as usize;
        i += 1;
    }
    both::<_, _, _, N>(&mut r, it, n, OP, |node, k| {
        let j = idx(&ids, node.id());
        if j >= N || !inside(j) || *node.data() != m.data[j] {
            return false;
        }
        let mut c = 0;
        let mut i = 0;
        while i < N {
            c += (inside(i) & (m.open[i] < m.open[j])) as usize;
            i += 1;
        }
        c == k
    });
}

pub fn ancestors<const N: usize, const C: u8, const OR_SELF: bool, const OP: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let it = if OR_SELF { f.ancestors_or_self(ids[x]) } else { f.ancestors(ids[x]) };
    let n = m.depth[x] as usize + OR_SELF as usize;
    forward::<_, _, _, N>(&mut r, it, n, OP, |node, k| {
        let j = idx(&ids, node.id());
        j < N
            && m.in_sub(j, x)
            && (m.depth[x] - m.depth[j]) as usize + OR_SELF as usize == k + 1
            && *node.data() == m.data[j]
    });
}
