//! Cloning: P19, P20, P25.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// The clone of `x` in the forest `g`, according to the mapping, is a copy of the subtree.
#[inline(always)]
fn copied<const N: usize>(m: &M<N>, g: &F, map: &[Option<VId>; N], x: usize, j: usize) {
    chk(map[j].is_some() == m.in_sub(x, j), "exactly the nodes of the subtree are mapped");
    if let Some(d) = map[j] {
        let to = |y: u8| if y as usize >= N { None } else { map[y as usize] };
        match g.node(d) {
            None => chk(false, "the clone is dead"),
            Some(n) => {
                if j == x {
                    chk(n.parent_id().is_none() && n.prev_sibling_id().is_none() && n.next_sibling_id().is_none(), "the clone is a root");
                } else {
                    chk(n.parent_id() == to(m.parent[j]), "parent of the clone");
                    chk(n.prev_sibling_id() == to(m.prev[j]), "previous sibling of the clone");
                    chk(n.next_sibling_id() == to(m.next[j]), "next sibling of the clone");
                }
                chk(n.first_child_id() == to(m.first[j]), "first child of the clone");
                chk(n.last_child_id() == to(m.last[j]), "last child of the clone");
                chk(*n.data() == m.data[j], "data of the clone");
            }
        }
    }
}

#[inline(always)]
fn fresh<const N: usize>(map: &[Option<VId>; N], k: usize, d: VId) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < N {
        if i != k {
            ok &= map[i] != Some(d);
        }
        i += 1;
    }
    ok
}

pub fn local<const N: usize, const C: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let mut map: [Option<VId>; N] = [None; N];
    let mut once = true;
    let c = f.clone_local_tree_with_id_mapping(ids[x], |s, d| {
        let s = idx(&ids, s);
        if s < N {
            once &= map[s].is_none();
            map[s] = Some(d);
        } else {
            once = false;
        }
    });
    chk(once, "each node of the subtree is mapped once");
    chk(map[x] == Some(c), "the clone of the root is returned");
    m.check(&f, &ids, j);
    copied(&m, &f, &map, x, j);
    if let Some(d) = map[j] {
        chk(is_new(&ids, N, d), "the clone has a new ID");
        chk(fresh(&map, j, d), "clones have different IDs");
    }
    cover(m.size(x) == N, "a tree of the whole forest");
    cover(m.parent[x] != M::<N>::NONE && m.size(x) > 2, "a proper subtree");
}

/// Walks the subtree and its clone together.
#[inline(always)]
fn same<const N: usize>(m: &M<N>, x: usize, g: &F, c: VId) {
    let n = match g.node(c) {
        None => return chk(false, "the clone is dead"),
        Some(n) => n,
    };
    chk(n.parent_id().is_none() && n.prev_sibling_id().is_none() && n.next_sibling_id().is_none(), "the clone is a root");
    let mut it = n.depth_first_traverse();
    let mut pos = m.open[x] as usize;
    let mut k = 0;
    while k < 2 * N {
        if pos > m.close[x] as usize {
            break;
        }
        match it.next() {
            None => return chk(false, "the clone has too few nodes"),
            Some(ev) => {
                let (d, open) = match ev {
                    DftEvent::Open(n) => (*n.data() as usize, true),
                    DftEvent::Close(n) => (*n.data() as usize, false),
                };
                chk(
                    d < N && m.in_sub(x, d) && pos == (if open { m.open[d] } else { m.close[d] }) as usize,
                    "shape and data of the clone",
                );
            }
        }
        pos += 1;
        k += 1;
    }
    chk(it.next().is_none(), "the clone has too many nodes");
}

pub fn local_plain<const N: usize, const C: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let c = f.clone_local_tree(ids[x]);
    chk(is_new(&ids, N, c), "the clone has a new ID");
    m.check(&f, &ids, j);
    same(&m, x, &f, c);
}

pub fn foreign<const N: usize, const C: u8, const D: usize>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let mut md = M::<D>::read::<D, ANY>(&mut r);
    let mut i = 0;
    while i < D {
        md.data[i] = 100 + i as u8;
        i += 1;
    }
    let (mut g, gids) = md.build::<D, u8>();
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let jd = r.below(D);
    let mut map: [Option<VId>; N] = [None; N];
    let mut once = true;
    let c = match f.node(ids[x]) {
        None => return chk(false, "a live node is not found"),
        Some(n) => g.clone_foreign_tree_with_id_mapping(n, |s, d| {
            let s = idx(&ids, s);
            if s < N {
                once &= map[s].is_none();
                map[s] = Some(d);
            } else {
                once = false;
            }
        }),
    };
    chk(once, "each node of the subtree is mapped once");
    chk(map[x] == Some(c), "the clone of the root is returned");
    m.check(&f, &ids, j);
    md.check(&g, &gids, jd);
    copied(&m, &g, &map, x, j);
    if let Some(d) = map[j] {
        chk(is_new(&gids, D, d), "the clone has a new ID");
        chk(fresh(&map, j, d), "clones have different IDs");
    }
    cover(m.size(x) == N, "a tree of the whole forest");
    cover(m.parent[x] != M::<N>::NONE && m.size(x) > 2, "a proper subtree");
}

pub fn foreign_plain<const N: usize, const C: u8>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let mut g = F::new();
    let e = g.create_root(200);
    let x = live(&mut r, &m, N);
    let c = match f.node(ids[x]) {
        None => return chk(false, "a live node is not found"),
        Some(n) => g.clone_foreign_tree(n),
    };
    chk(c != e && g.data(e).copied() == Some(200), "the destination keeps what it had");
    same(&m, x, &g, c);
}

/// A clone of the whole forest is equal to it, and independent.
pub fn whole<const N: usize, const C: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let which = r.bit();
    let mut g = f.clone();
    m.check(&g, &ids, j);
    let mut w = m;
    w.remove(x, true);
    if which {
        f.remove(ids[x]);
        w.check(&f, &ids, j);
        m.check(&g, &ids, j);
    } else {
        g.remove(ids[x]);
        m.check(&f, &ids, j);
        w.check(&g, &ids, j);
    }
}

/// A clone of the whole forest and its original go separate ways: operation `K` (7: creation) on
/// either has its effect there and none on the other; new nodes get new IDs in both.
pub fn whole_then<const N: usize, const C: u8, const K: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let a = live(&mut r, &m, N);
    let j = r.below(N);
    let which = r.bit();
    let mut g = f.clone();
    let mut w = m;
    {
        let h = if which { &mut f } else { &mut g };
        if K < 7 {
            crate::seq::op(h, K, ids[x], ids[a]);
            crate::seq::effect(&mut w, K, x, a, true);
        } else {
            let n = h.create_root(77);
            chk(is_new(&ids, N, n), "the ID of a node that is created after cloning");
            chk(h.data(n).copied() == Some(77), "data of a node that is created after cloning");
        }
    }
    if which {
        w.check(&f, &ids, j);
        m.check(&g, &ids, j);
    } else {
        m.check(&f, &ids, j);
        w.check(&g, &ids, j);
    }
    if K == 7 {
        // The same on the other side.
        let h = if which { &mut g } else { &mut f };
        let n = h.create_insert(78, InsertAs::FirstChildOf(ids[x]));
        chk(is_new(&ids, N, n), "the ID of a node that is created after cloning");
        chk(h.data(n).copied() == Some(78), "data of a node that is created after cloning");
        chk(h.node(n).and_then(|n| n.parent_id()) == Some(ids[x]), "parent of a node that is created after cloning");
        if which {
            w.check(&f, &ids, j);
        } else {
            w.check(&g, &ids, j);
        }
    }
}

/// `clone_from` over a forest that had other nodes gives the same as a clone.
pub fn over<const N: usize, const C: u8, const D: usize>() {
    let mut r = Rd::new();
    let (m, f, ids) = start::<N, N, C>(&mut r);
    let mut md = M::<D>::read::<D, ANY>(&mut r);
    let mut i = 0;
    while i < D {
        md.data[i] = 100 + i as u8;
        i += 1;
    }
    let (mut g, gids) = md.build::<D, u8>();
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let jd = r.below(D);
    g.clone_from(&f);
    m.check(&g, &ids, j);
    m.check(&f, &ids, j);
    if is_new(&ids, N, gids[jd]) {
        chk(g.node(gids[jd]).is_none() && g.data(gids[jd]).is_none(), "a node of the overwritten forest is left");
    }
    let n = g.create_insert(78, InsertAs::FirstChildOf(ids[x]));
    chk(is_new(&ids, N, n), "the ID of a node that is created after cloning");
    chk(g.data(n).copied() == Some(78), "data of a node that is created after cloning");
    match g.node(n) {
        None => chk(false, "a node that is created after cloning is not alive"),
        Some(n) => {
            chk(n.parent_id() == Some(ids[x]), "parent of a node that is created after cloning");
            chk(n.first_child_id().is_none() && n.prev_sibling_id().is_none(), "a node that is created after cloning has children or a previous sibling");
        }
    }
    m.check(&f, &ids, j);
    g.remove(n);
    m.check(&g, &ids, j);
}
