//! Traversals: P14–P18.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// Node and position of an event. The position is `-1` if the node is not in the forest.
#[inline(always)]
fn event<const N: usize>(m: &M<N>, ids: &[VId; N], ev: DftEvent<Node<'_, VId, u8>>) -> (usize, i32) {
    let (n, open) = match ev {
        DftEvent::Open(n) => (n, true),
        DftEvent::Close(n) => (n, false),
    };
    let j = idx(ids, n.id());
    if j >= N || *n.data() != m.data[j] {
        return (N, -1);
    }
    (j, if open { m.open[j] as i32 } else { m.close[j] as i32 })
}

/// Depth-first traversal, consumed from both ends in any interleaving.
pub fn dft<const N: usize, const C: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let mut it = if VIA == 0 {
        f.depth_first_traverse(ids[x])
    } else {
        match f.node(ids[x]) {
            Some(n) => n.depth_first_traverse(),
            None => return chk(false, "a live node is not found"),
        }
    };
    let (mut lo, mut hi) = (m.open[x] as i32, m.close[x] as i32);
    let mut k = 0;
    while k < 2 * N {
        let back = r.bit();
        if lo > hi {
            break;
        }
        match it.peek() {
            Some(ev) => {
                let (j, p) = event(&m, &ids, ev);
                chk(j < N && m.root[j] == m.root[x] && p == lo, "peek gives the event that comes next");
            }
            None => chk(false, "peek gives the event that comes next"),
        }
        match it.peek_back() {
            Some(ev) => {
                let (j, p) = event(&m, &ids, ev);
                chk(j < N && m.root[j] == m.root[x] && p == hi, "peek_back gives the event that comes last");
            }
            None => chk(false, "peek_back gives the event that comes last"),
        }
        let ev = if back { it.next_back() } else { it.next() };
        let want = if back { hi } else { lo };
        match ev {
            Some(ev) => {
                let (j, p) = event(&m, &ids, ev);
                chk(j < N && m.root[j] == m.root[x], "the node is in the tree");
                chk(p == want, "order of the events");
            }
            None => return chk(false, "the traversal ends too early"),
        }
        if back {
            hi -= 1
        } else {
            lo += 1
        }
        k += 1;
    }
    chk(it.peek().is_none() && it.peek_back().is_none(), "peek at the end");
    chk(it.next().is_none(), "the traversal goes on after its end");
    chk(it.next_back().is_none() && it.next().is_none(), "the traversal resumes after its end");
    cover(m.size(x) == N, "a tree of the whole forest");
    cover(m.parent[x] != M::<N>::NONE && m.size(x) > 1, "a proper subtree");
}

/// Depth-limited depth-first traversal.
pub fn shallow<const N: usize, const C: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    // 0..N: that depth. N: no limit. N + 1: any larger number.
    let l = r.upto(N as u8 + 1) as usize;
    let mut deep = 0;
    let mut i = 0;
    while i < 8 {
        deep = deep << 8 | r.upto(255) as usize;
        i += 1;
    }
    let limit = if l < N {
        Some(l)
    } else if l == N {
        None
    } else {
        assume(deep >= N);
        Some(deep)
    };
    let lim = if l < N { l as i32 } else { N as i32 };
    let mut it = if VIA == 0 {
        f.shallow_depth_first_traverse(ids[x], limit)
    } else {
        match f.node(ids[x]) {
            Some(n) => n.shallow_depth_first_traverse(limit),
            None => return chk(false, "a live node is not found"),
        }
    };
    // The largest number means that there is no limit.
    if limit != Some(usize::MAX) {
        chk(it.max_depth() == limit, "the depth limit that is reported");
    }
    let base = m.depth[x] as i32;
    // Positions of the events that are within the limit.
    let mut here = [false; 64];
    let mut left = 0;
    let mut i = 0;
    while i < N {
        if m.in_sub(x, i) && m.depth[i] as i32 - base <= lim {
            here[m.open[i] as usize & 63] = true;
            here[m.close[i] as usize & 63] = true;
            left += 2;
        }
        i += 1;
    }
    let (mut lo, mut hi) = (m.open[x] as i32, m.close[x] as i32);
    let good = |ev: Option<(DftEvent<Node<'_, VId, u8>>, usize)>, want: i32| -> bool {
        match ev {
            None => false,
            Some((ev, d)) => {
                let (j, p) = event(&m, &ids, ev);
                j < N && m.root[j] == m.root[x] && p == want && m.depth[j] as i32 - base == d as i32
            }
        }
    };
    let mut k = 0;
    while k < 2 * N {
        let back = r.bit();
        if left == 0 {
            break;
        }
        chk(good(it.peek(), lo), "peek gives the event that comes next");
        chk(good(it.peek_back(), hi), "peek_back gives the event that comes last");
        let ev = if back { it.next_back() } else { it.next() };
        chk(good(ev, if back { hi } else { lo }), "order and depths of the events");
        left -= 1;
        // The next event within the limit.
        let mut i = 0;
        if left > 0 {
            if back {
                hi -= 1;
                while i < 2 * N {
                    if !here[hi as usize & 63] {
                        hi -= 1;
                    }
                    i += 1;
                }
            } else {
                lo += 1;
                while i < 2 * N {
                    if !here[lo as usize & 63] {
                        lo += 1;
                    }
                    i += 1;
                }
            }
        }
        k += 1;
    }
    chk(it.peek().is_none() && it.peek_back().is_none(), "peek at the end");
    chk(it.next().is_none(), "the traversal goes on after its end");
    chk(it.next_back().is_none() && it.next().is_none(), "the traversal resumes after its end");
    cover(m.size(x) > 2 && l == 1, "a limit that cuts");
}

/// Breadth-first traversal. `HOW`: 0 not allocating, 1 allocating; +2: by proxy.
pub fn bft<const N: usize, const C: u8, const HOW: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let total = m.size(x);
    let mut cnt = 0;
    let mut lp = 0;
    let mut ld = 0;
    macro_rules! step {
        ($e:expr) => {
            match $e {
                None => false,
                Some((n, d)) => {
                    let (n, d): (Node<'_, VId, u8>, usize) = (n, d);
                    let j = idx(&ids, n.id());
                    if j >= N {
                        chk(false, "the node is in the forest");
                        return;
                    }
                    chk(m.in_sub(x, j), "the node is in the subtree");
                    chk(*n.data() == m.data[j], "data");
                    chk(d + m.depth[x] as usize == m.depth[j] as usize, "depth");
                    if cnt > 0 {
                        chk(d > ld || (d == ld && m.open[j] > lp), "order");
                    }
                    ld = d;
                    lp = m.open[j];
                    true
                }
            }
        };
    }
    let node = match f.node(ids[x]) {
        Some(n) => n,
        None => return chk(false, "a live node is not found"),
    };
    if HOW % 2 == 0 {
        let mut it = if HOW == 0 { f.breadth_first_traverse(ids[x]) } else { node.breadth_first_traverse() };
        while cnt < total {
            let (a, b) = it.size_hint();
            chk(a <= total - cnt && b.map_or(true, |b| b >= total - cnt), "size hint");
            if !step!(it.next()) {
                return chk(false, "the traversal ends too early");
            }
            cnt += 1;
        }
        chk(it.next().is_none(), "the traversal goes on after its end");
        chk(it.next().is_none(), "the traversal resumes after its end");
    } else {
        let mut it = if HOW == 1 { f.allocating_breadth_first_traverse(ids[x]) } else { node.allocating_breadth_first_traverse() };
        while cnt < total {
            let (a, b) = it.size_hint();
            chk(a <= total - cnt && b.map_or(true, |b| b >= total - cnt), "size hint");
            let p = it.peek().map(|(n, d)| (n.id(), d));
            let e = it.next();
            chk(p == e.map(|(n, d)| (n.id(), d)), "peek gives what comes next");
            if !step!(e) {
                return chk(false, "the traversal ends too early");
            }
            cnt += 1;
        }
        let (a, _) = it.size_hint();
        chk(a == 0, "size hint at the end");
        chk(it.peek().is_none(), "peek at the end");
        chk(it.next().is_none(), "the traversal goes on after its end");
        chk(it.peek().is_none(), "peek after the end");
        chk(it.next().is_none(), "the traversal resumes after its end");
    }
    cover(total == N, "a tree of the whole forest");
    cover(m.parent[x] != M::<N>::NONE && total > 2, "a proper subtree");
}

/// Children and siblings. `K`: 0 children, 1 following, 2 following or self, 3 preceding,
/// 4 preceding or self; consumed from both ends in any interleaving.
pub fn siblings<const N: usize, const C: u8, const K: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let p = m.parent[x];
    let none = M::<N>::NONE;
    let (end, begin) = if p == none { (x as u8, x as u8) } else { (m.last[p as usize], m.first[p as usize]) };
    let (mut lo, mut hi) = match K {
        0 => (m.first[x], m.last[x]),
        1 => (m.next[x], if m.next[x] == none { none } else { end }),
        2 => (x as u8, end),
        3 => (if m.prev[x] == none { none } else { begin }, m.prev[x]),
        _ => (begin, x as u8),
    };
    let mut it = if VIA == 0 {
        match K {
            0 => f.children(ids[x]),
            1 => f.following_siblings(ids[x]),
            2 => f.following_siblings_or_self(ids[x]),
            3 => f.preceding_siblings(ids[x]),
            _ => f.preceding_siblings_or_self(ids[x]),
        }
    } else {
        match f.node(ids[x]) {
            None => return chk(false, "a live node is not found"),
            Some(n) => match K {
                0 => n.children(),
                1 => n.following_siblings(),
                2 => n.following_siblings_or_self(),
                3 => n.preceding_siblings(),
                _ => n.preceding_siblings_or_self(),
            },
        }
    };
    let mut k = 0;
    let mut seen = 0;
    while k < N {
        let back = r.bit();
        if lo == none {
            break;
        }
        chk(it.peek().map(|n| n.id()) == id(&ids, lo), "peek gives what comes next");
        chk(it.peek_back().map(|n| n.id()) == id(&ids, hi), "peek_back gives what comes last");
        let n = if back { it.next_back() } else { it.next() };
        let want = if back { hi } else { lo };
        chk(n.map(|n| n.id()) == id(&ids, want), "order of the nodes");
        chk(n.map_or(true, |n| *n.data() == at(&m.data, want)), "data of the node");
        seen += 1;
        if lo == hi {
            lo = none;
            hi = none;
        } else if back {
            hi = at(&m.prev, hi);
        } else {
            lo = at(&m.next, lo);
        }
        k += 1;
    }
    chk(it.peek().is_none() && it.peek_back().is_none(), "peek at the end");
    chk(it.next().is_none(), "the iteration goes on after its end");
    chk(it.next_back().is_none() && it.next().is_none(), "the iteration resumes after its end");
    cover(seen > 1, "several nodes");
}

/// Ancestors.
pub fn ancestors<const N: usize, const C: u8, const OR_SELF: bool, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let none = M::<N>::NONE;
    let mut it = if VIA == 0 {
        if OR_SELF {
            f.ancestors_or_self(ids[x])
        } else {
            f.ancestors(ids[x])
        }
    } else {
        match f.node(ids[x]) {
            None => return chk(false, "a live node is not found"),
            Some(n) => {
                if OR_SELF {
                    n.ancestors_or_self()
                } else {
                    n.ancestors()
                }
            }
        }
    };
    let mut cur = if OR_SELF { x as u8 } else { m.parent[x] };
    let mut k = 0;
    while k < N {
        if cur == none {
            break;
        }
        chk(it.peek().map(|n| n.id()) == id(&ids, cur), "peek gives what comes next");
        let n = it.next();
        chk(n.map(|n| n.id()) == id(&ids, cur), "order of the nodes");
        chk(n.map_or(true, |n| *n.data() == at(&m.data, cur)), "data of the node");
        cur = m.parent[cur as usize];
        k += 1;
    }
    chk(it.peek().is_none(), "peek at the end");
    chk(it.next().is_none(), "the iteration goes on after its end");
    chk(it.next().is_none(), "the iteration resumes after its end");
    cover(m.depth[x] as usize == N - 1, "the deepest node of a chain");
}

/// The breadth-first traversal that is documented not to allocate does not.
#[cfg(check = "P28")]
pub fn no_heap<const N: usize, const C: u8, const HOW: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let total = m.size(x);
    let k = r.below(N + 1);
    let before = heap::count();
    let mut n = 0;
    {
        let mut it = match (HOW, f.node(ids[x])) {
            (0, _) => f.breadth_first_traverse(ids[x]),
            (_, Some(n)) => n.breadth_first_traverse(),
            _ => return chk(false, "a live node is not found"),
        };
        while n < total + 1 {
            if n == k {
                let _ = it.size_hint();
            }
            chk(heap::count() == before, "the breadth-first traversal allocates");
            if it.next().is_none() {
                break;
            }
            n += 1;
        }
        chk(n == total, "the breadth-first traversal visits every node");
        chk(it.next().is_none(), "the traversal is over");
    }
    chk(heap::count() == before, "the breadth-first traversal allocates");
    // The count works.
    let g = f.clone();
    chk(heap::count() != before, "(allocations are counted)");
    chk(g.data(ids[x]).copied() == Some(m.data[x]), "(the clone)");
    cover(total == N, "(the whole forest)");
}
