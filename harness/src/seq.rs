//! Histories: P01.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// The links around the node in slot `j` agree with each other.
pub fn consistent<const N: usize>(f: &F, ids: &[VId; N], j: usize) {
    let n = match f.node(ids[j]) {
        None => {
            chk(f.data(ids[j]).is_none(), "a dead node has data");
            return;
        }
        Some(n) => n,
    };
    chk(f.data(ids[j]).is_some(), "a live node has no data");
    let (p, v, x, c, l) = (n.parent_id(), n.prev_sibling_id(), n.next_sibling_id(), n.first_child_id(), n.last_child_id());
    chk(c.is_some() == l.is_some(), "a first child without a last child");
    if let Some(v) = v {
        match f.node(v) {
            None => chk(false, "the previous sibling is dead"),
            Some(v) => {
                chk(v.next_sibling_id() == Some(ids[j]), "next sibling of the previous sibling");
                chk(v.parent_id() == p, "parent of the previous sibling");
            }
        }
    }
    if let Some(x) = x {
        match f.node(x) {
            None => chk(false, "the next sibling is dead"),
            Some(x) => {
                chk(x.prev_sibling_id() == Some(ids[j]), "previous sibling of the next sibling");
                chk(x.parent_id() == p, "parent of the next sibling");
            }
        }
    }
    if let Some(c) = c {
        match f.node(c) {
            None => chk(false, "the first child is dead"),
            Some(c) => {
                chk(c.parent_id() == Some(ids[j]), "parent of the first child");
                chk(c.prev_sibling_id().is_none(), "the first child has a previous sibling");
            }
        }
    }
    if let Some(l) = l {
        match f.node(l) {
            None => chk(false, "the last child is dead"),
            Some(l) => {
                chk(l.parent_id() == Some(ids[j]), "parent of the last child");
                chk(l.next_sibling_id().is_none(), "the last child has a next sibling");
            }
        }
    }
    match p {
        None => chk(v.is_none() && x.is_none(), "a root has siblings"),
        Some(p) => match f.node(p) {
            None => chk(false, "the parent is dead"),
            Some(p) => {
                chk((p.first_child_id() == Some(ids[j])) == v.is_none(), "first child of the parent");
                chk((p.last_child_id() == Some(ids[j])) == x.is_none(), "last child of the parent");
            }
        },
    }
    // No cycles: the ancestors and the siblings come to an end.
    let mut i = 0;
    let mut up = p;
    let mut right = x;
    while i < N {
        up = match up {
            None => None,
            Some(u) => match f.node(u) {
                None => None,
                Some(u) => u.parent_id(),
            },
        };
        right = match right {
            None => None,
            Some(u) => match f.node(u) {
                None => None,
                Some(u) => u.next_sibling_id(),
            },
        };
        i += 1;
    }
    chk(up.is_none(), "a node is its own ancestor");
    chk(right.is_none(), "the siblings form a cycle");
}

/// Operation `k`: 0–3 insert `x` near `a`, 4 detach, 5 detach the single node, 6 remove.
#[inline(never)]
pub fn op(f: &mut F, k: u8, x: VId, a: VId) {
    if f.node(x).is_none() || f.node(a).is_none() {
        return;
    }
    match k {
        4 => f.detach(x),
        5 => {
            let _ = f.detach_single(x);
        }
        6 => f.remove(x),
        _ => {
            let _ = f.insert(x, dest(k, a));
        }
    }
}

/// Operation `K` from an arbitrary state.
pub fn one<const N: usize, const C: u8, const K: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let a = live(&mut r, &m, N);
    let j = r.below(N);
    op(&mut f, K, ids[x], ids[a]);
    consistent(&f, &ids, j);
}

/// Operation `K`, then any operation (7–10: creation near `a`), from an arbitrary state.
pub fn two<const N: usize, const B: usize, const C: u8, const K: u8>() {
    let mut r = Rd::new();
    let (m, mut f, mut ids) = start::<N, B, C>(&mut r);
    let x = live(&mut r, &m, B);
    let a = live(&mut r, &m, B);
    let i = r.below(B);
    op(&mut f, K, ids[x], ids[a]);
    consistent(&f, &ids, i);
    let k = r.upto(10);
    let x = r.below(B);
    let a = r.below(B);
    if k < 7 {
        op(&mut f, k, ids[x], ids[a]);
    } else if let Some(n) = f.node(ids[a]) {
        assume(k < 9 || n.parent_id().is_some());
        ids[B] = f.create_insert(B as u8, dest(k - 7, ids[a]));
    }
    let j = r.below(N);
    assume(j < B || k >= 7);
    consistent(&f, &ids, j);
}

/// `K` operations from `N` roots.
pub fn history<const N: usize, const K: usize>() {
    let mut r = Rd::new();
    let mut f = F::new();
    let z = f.create_root(0);
    let mut ids = [z; N];
    let mut i = 1;
    while i < N {
        ids[i] = f.create_root(i as u8);
        i += 1;
    }
    let mut i = 0;
    while i < K {
        let k = r.upto(6);
        let x = r.below(N);
        let a = r.below(N);
        op(&mut f, k, ids[x], ids[a]);
        i += 1;
    }
    let j = r.below(N);
    consistent(&f, &ids, j);
    let n = f.node(ids[j]);
    cover(n.is_some() && n.map_or(false, |n| n.prev_sibling_id().is_some() && n.next_sibling_id().is_some()), "a middle child");
}

/// Operation `K` from an arbitrary state has its effect, and so has any further operation (7–10:
/// creation near `a`). `S`: the further operations are 0 insertions, 1 detachments and removal,
/// 2 creations, 3 any.
pub fn effects<const N: usize, const B: usize, const C: u8, const K: u8, const S: u8>() {
    let mut r = Rd::new();
    let (m, mut f, mut ids) = start::<N, B, C>(&mut r);
    let mut w = m;
    let x = live(&mut r, &m, B);
    let a = live(&mut r, &m, B);
    op(&mut f, K, ids[x], ids[a]);
    effect(&mut w, K, x, a, true);
    let k = match S {
        0 => r.upto(3),
        1 => 4 + r.upto(2),
        2 => 7 + r.upto(3),
        _ => r.upto(10),
    };
    let x = r.below(B);
    let a = r.below(B);
    assume(w.alive[x] & w.alive[a]);
    let j = r.below(N);
    if k < 7 {
        assume(j < B);
        op(&mut f, k, ids[x], ids[a]);
        effect(&mut w, k, x, a, false);
    } else {
        assume(k < 9 || w.parent[a] != M::<N>::NONE);
        ids[B] = f.create_insert(B as u8, dest(k - 7, ids[a]));
        w.create(B, k - 7, a, B as u8);
    }
    w.check(&f, &ids, j);
}

#[inline(always)]
pub fn effect<const N: usize>(w: &mut M<N>, k: u8, x: usize, a: usize, fresh: bool) {
    match k {
        4 => w.unlink(x),
        5 => {
            w.splice_out(x);
        }
        6 => w.remove(x, fresh),
        _ => {
            w.insert(x, k, a, fresh);
        }
    }
}

/// The state after the operation is one of those that the other checks start from.
///
/// Only for information: the result depends on the representation.
#[cfg(rawbuild)]
pub fn canonical<const N: usize, const C: u8, const K: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let a = live(&mut r, &m, N);
    let j = r.below(N);
    op(&mut f, K, ids[x], ids[a]);
    let mut w = m;
    effect(&mut w, K, x, a, true);
    let o = |v: u8| if v as usize >= N { None } else { Some(v as usize) };
    let (l, d) = f.verif_raw(j);
    chk(d == w.alive[j], "raw data");
    if w.alive[j] {
        chk(l[0] == o(w.parent[j]), "raw parent");
        chk(l[1] == o(w.prev_cyclic(j)), "raw previous sibling");
        chk(l[2] == o(w.next[j]), "raw next sibling");
        chk(l[3] == o(w.first[j]), "raw first child");
    } else {
        chk(l[1].is_none(), "raw dead node");
    }
}
#[cfg(not(rawbuild))]
pub fn canonical<const N: usize, const C: u8, const K: u8>() {}
