//! Builders: P21, P22.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// One step of a chain builder whose current node is anywhere in its tree.
///
/// The tree around the current node is an arbitrary forest, grafted through `forest_mut`.
/// `K`: 0 child, 1 sibling, 2 try_parent, 3 parent.
pub fn chain_step<const N: usize, const B: usize, const C: u8, const K: u8>() {
    // Slots: 0..B arbitrary, B the root of the builder, B + 1 its current node, B + 2 the new node.
    let mut r = Rd::new();
    let (m, mut f, mut ids) = start::<N, B, C>(&mut r);
    let j = r.below(N);
    let d = r.upto(255);
    let (root, cur, new) = (B, B + 1, B + 2);
    let mut w = m;
    let a = live(&mut r, &m, B);
    // The current node becomes a child of `a` just after `a`'s child `v` (or the first), and may
    // adopt another tree.
    let k = r.upto(3);
    if k >= 2 {
        assume(m.parent[a] != M::<N>::NONE);
    }
    let adopt = r.bit();
    let t = live(&mut r, &m, B);
    let stay_root = r.bit();
    {
        let mut b = ChainTreeBuilder::new(&mut f, 100);
        ids[root] = b.root_id();
        chk(b.current_id() == ids[root], "the builder starts at the root");
        chk(is_new(&ids, B, ids[root]), "the root of the builder has a new ID");
        w.alive[root] = true;
        w.data[root] = 100;
        if stay_root {
            // The current node is the root of the builder.
            if adopt {
                chk(b.forest_mut().insert(ids[t], InsertAs::FirstChildOf(ids[root])).is_ok(), "preparation");
                w.insert(t, 0, root, false);
            }
        } else {
            b.child(101);
            ids[cur] = b.current_id();
            w.create(cur, 1, root, 101);
            chk(b.forest_mut().insert(ids[cur], dest(k, ids[a])).is_ok(), "preparation");
            w.insert(cur, k, a, false);
            if adopt {
                let ok = b.forest_mut().insert(ids[t], InsertAs::FirstChildOf(ids[cur])).is_ok();
                w.insert(t, 0, cur, false);
                assume(ok);
            }
        }
        let c = if stay_root { root } else { cur };
        chk(b.current_id() == ids[c], "the current node stays");
        let par = w.parent[c];
        match K {
            0 => {
                let q = b.child(d).current_id();
                ids[new] = q;
                w.create(new, 1, c, d);
                chk(b.current_id() == q && is_new(&ids, new, q), "the new child is the current node");
            }
            1 => {
                if par == M::<N>::NONE {
                    chk(panics(|| drop(b.sibling(d))), "a sibling of a root");
                    ids[new] = ids[0];
                } else {
                    let q = b.sibling(d).current_id();
                    ids[new] = q;
                    w.create(new, 3, c, d);
                    chk(b.current_id() == q && is_new(&ids, new, q), "the new sibling is the current node");
                }
            }
            2 => {
                let ok = b.try_parent().is_some();
                chk(ok == (par != M::<N>::NONE), "there is a parent");
                chk(Some(b.current_id()) == if ok { id(&ids, par) } else { Some(ids[c]) }, "the parent is the current node");
            }
            _ => {
                let p = panics(|| {
                    b.parent();
                });
                chk(p == (par == M::<N>::NONE), "moving up panics exactly at a root");
                chk(Some(b.current_id()) == if p { Some(ids[c]) } else { id(&ids, par) }, "the parent is the current node");
            }
        }
        chk(b.root_id() == ids[root], "the root of the builder stays");
        if j < new && (j != cur || !stay_root) {
            chk(b.forest().node(ids[j]).is_some() == w.alive[j], "the forest of the builder");
        }
    }
    if w.alive[j] {
        w.check(&f, &ids, j);
    }
    cover(!stay_root && adopt && m.parent[a] != M::<N>::NONE, "inside a tree");
}

/// A program of `K` builder steps: the tree is the one that was described.
pub fn chain<const N: usize, const K: usize>() {
    let mut r = Rd::new();
    let mut f = F::new();
    let mut w = M::<N>::empty();
    let z;
    let mut ids;
    {
        let mut b = ChainTreeBuilder::new(&mut f, 0);
        z = b.root_id();
        ids = [z; N];
        w.alive[0] = true;
        let mut n = 1;
        let mut c = 0;
        let mut i = 0;
        while i < K {
            let k = r.upto(2);
            split(k as usize, 3);
            match k {
                0 => {
                    b.child(n as u8);
                    ids[n] = b.current_id();
                    w.create(n, 1, c, n as u8);
                    c = n;
                    n += 1;
                }
                1 => {
                    assume(w.parent[c] != M::<N>::NONE);
                    b.sibling(n as u8);
                    ids[n] = b.current_id();
                    w.create(n, 3, c, n as u8);
                    c = n;
                    n += 1;
                }
                _ => {
                    assume(w.parent[c] != M::<N>::NONE);
                    b.parent();
                    c = w.parent[c] as usize;
                }
            }
            i += 1;
        }
        chk(b.current_id() == ids[c], "the current node");
        chk(b.root_id() == z, "the root");
    }
    let j = r.below(N);
    if w.alive[j] {
        w.check(&f, &ids, j);
    }
}

/// What the nested builder is told to build: items in document order, with their depths.
pub struct Plan<const K: usize> {
    pos: usize,
    depth: [u8; K],
    leaf_as_tree: [u8; K],
    ids: [VId; K],
}
impl<const K: usize> Plan<K> {
    #[inline(always)]
    fn at(&self, i: usize) -> u8 {
        if i < K {
            self.depth[i]
        } else {
            0
        }
    }
}

/// Items of depth `$l` at the current position; the nested ones by `$next`.
macro_rules! level {
    ($name:ident, $l:expr, $next:ident) => {
        #[inline(always)]
        fn $name<const K: usize>(b: &mut NestTreeBuilder<'_, VId, u8>, p: &mut Plan<K>, n: usize) {
            let root = b.root();
            let mut i = 0;
            while i < n {
                if p.at(p.pos) != $l {
                    break;
                }
                let me = p.pos;
                p.pos += 1;
                if p.at(p.pos) > $l || p.leaf_as_tree[me] == 1 {
                    b.create_tree(me as u8 + 1, |b| {
                        p.ids[me] = b.root();
                        $next(b, p, n - 1);
                        chk(b.root() == p.ids[me], "the root of a nested tree stays");
                    });
                } else {
                    b.add_child(me as u8 + 1);
                }
                chk(b.root() == root, "the root of a tree stays");
                i += 1;
            }
        }
    };
}
level!(level1, 1, level2);
level!(level2, 2, level3);
level!(level3, 3, level4);
#[inline(always)]
fn level4<const K: usize>(_: &mut NestTreeBuilder<'_, VId, u8>, p: &mut Plan<K>, _: usize) {
    assume(p.at(p.pos) <= 3);
}

/// The nested builder builds exactly the described tree (up to `K` items of depth 1 to `D` <= 3).
pub fn nest<const K: usize, const N: usize, const D: u8>() {
    let mut r = Rd::new();
    let mut f = F::new();
    let other = f.create_root(99);
    if K > 3 {
        // With these the storage does not grow afterwards (growing is covered by smaller K).
        let mut i = 0;
        while i < 8 {
            f.create_insert(98, InsertAs::LastChildOf(other));
            i += 1;
        }
    }
    let depth: [u8; K] = r.arr(D);
    let leaf_as_tree: [u8; K] = r.arr(1);
    let mut i = 0;
    while i < K {
        assume(depth[i] <= if i == 0 { 1 } else { depth[i - 1] + 1 });
        assume(i == 0 || depth[i - 1] > 0 || depth[i] == 0);
        i += 1;
    }
    let mut p = Plan { pos: 0, depth, leaf_as_tree, ids: [other; K] };
    let root = {
        let mut b = NestTreeBuilder::new(&mut f, 0);
        let root = b.root();
        level1(&mut b, &mut p, K);
        root
    };
    let made = p.pos;
    chk(made == K || depth[made & 7] == 0, "(all items are built)");
    chk(f.node(other).map_or(false, |n| n.parent_id().is_none() && n.next_sibling_id().is_none() && n.first_child_id().is_none() == (K <= 3)), "other trees stay");
    // The items have been numbered in document order.
    let mut want = 0usize;
    let mut level = 0u8;
    let mut it = f.depth_first_traverse(root);
    let mut i = 0;
    while i < 2 * N {
        match it.next() {
            None => break,
            Some(DftEvent::Open(n)) => {
                chk(*n.data() as usize == want, "document order");
                chk(want == 0 && level == 0 || want > 0 && want <= K && level == p.at(want - 1), "nesting");
                want += 1;
                level += 1;
            }
            Some(DftEvent::Close(n)) => {
                level = level.wrapping_sub(1);
                let _ = n;
            }
        }
        i += 1;
    }
    chk(i <= 2 * N && it.next().is_none(), "the tree has no other nodes");
    chk(want == made + 1 && level == 0, "number of the nodes");
    cover(made == K && depth[K - 1] == 1, "full");
    cover(made == K && depth[K - 1] == D, "deep");
}
