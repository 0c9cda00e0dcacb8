//! Panics in the caller's code while cloning: P26.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// Data whose clone panics if the highest bit is set.
pub struct Boom(u8);
impl Num for Boom {
    #[inline(always)]
    fn of(v: u8) -> Boom {
        Boom(v)
    }
    #[inline(always)]
    fn num(&self) -> u8 {
        self.0
    }
}
impl Clone for Boom {
    #[inline(always)]
    fn clone(&self) -> Boom {
        if self.0 >= 128 {
            blow_up();
        }
        Boom(self.0)
    }
}

/// The forest can be used as usual: a node is created, and a node is moved below it.
#[inline(always)]
fn usable<const N: usize, T: Num>(m: &M<N>, f: &mut Forest<VId, T>, ids: &[VId; N], y: usize, j: usize, root: bool) {
    let d = 55;
    let n = if root { f.create_root(T::of(d)) } else { f.create_insert(T::of(d), InsertAs::FirstChildOf(ids[y])) };
    chk(is_new(ids, N, n), "the ID of a node that is created later");
    chk(f.data(n).map(|v| v.num()) == Some(d), "data of a node that is created later");
    match f.node(n) {
        None => return chk(false, "a node that is created later is not found"),
        Some(p) => {
            chk(p.parent_id() == if root { None } else { Some(ids[y]) }, "parent of a node that is created later");
            chk(p.first_child_id().is_none(), "children of a node that is created later");
        }
    }
    if root {
        chk(m.matches(f, ids, j), "the existing nodes after a creation");
        f.detach(ids[y]);
        chk(f.insert(n, InsertAs::LastChildOf(ids[y])).is_ok(), "insertion of a node that is created later");
        let mut w = *m;
        w.unlink(y);
        if j != y {
            chk(w.last[y] == j as u8 || w.matches(f, ids, j), "the existing nodes after an insertion");
        } else {
            chk(f.node(ids[y]).and_then(|p| p.last_child_id()) == Some(n), "a node that is inserted later");
        }
    } else if j != y && m.parent[j] != y as u8 {
        chk(m.matches(f, ids, j), "the existing nodes after a creation");
    }
}

/// A node whose ID the callback got is alive with its data, or it is not alive in any respect.
#[inline(always)]
fn whole_node<const N: usize>(f: &mut Forest<VId, Boom>, ids: &[VId; N], y: usize, d: Option<VId>) {
    let d = match d {
        None => return,
        Some(d) => d,
    };
    chk(is_new(ids, N, d), "the ID of a clone");
    match f.node(d) {
        Some(n) => chk(f.data(d).is_some() && n.prev_sibling_id() != Some(d), "a clone without data is left"),
        None => {
            chk(f.data(d).is_none(), "a dead clone has data");
            let mut ok = false;
            panics(|| ok = f.insert(d, InsertAs::LastChildOf(ids[y])).is_ok());
            chk(!ok, "a clone that is not alive is inserted");
        }
    }
}

/// Cloning within the forest. `HOW`: 0 the data panics, 1 the callback panics, 2 the data panics
/// where there is a callback.
pub fn local<const N: usize, const C: u8, const HOW: u8>() {
    let mut r = Rd::new();
    let mut m = M::<N>::read::<N, C>(&mut r);
    let b = r.below(N);
    if HOW != 1 {
        m.data[b] |= 128;
    }
    #[cfg(not(sym))]
    m.show::<N>();
    let (mut f, ids) = m.build::<N, Boom>();
    let x = live(&mut r, &m, N);
    let y = live(&mut r, &m, N);
    let j = r.below(N);
    let root = r.bit();
    let mut cnt = 0;
    let mut given = None;
    let p = panics(|| {
        if HOW == 0 {
            f.clone_local_tree(ids[x]);
        } else {
            f.clone_local_tree_with_id_mapping(ids[x], |_, d| {
                given = Some(d);
                if HOW == 1 && cnt == b {
                    blow_up();
                }
                cnt += 1;
            });
        }
    });
    chk(p == if HOW != 1 { m.in_sub(x, b) } else { b < m.size(x) }, "the panic is passed on");
    chk(m.matches(&f, &ids, j), "the existing nodes");
    whole_node(&mut f, &ids, y, given);
    usable(&m, &mut f, &ids, y, j, root);
    cover(p && m.size(x) > 2, "a panic while cloning several nodes");
}

/// Cloning into another forest of `D` nodes.
pub fn foreign<const N: usize, const C: u8, const D: usize, const HOW: u8>() {
    let mut r = Rd::new();
    let mut m = M::<N>::read::<N, C>(&mut r);
    let b = r.below(N);
    if HOW != 1 {
        m.data[b] |= 128;
    }
    #[cfg(not(sym))]
    m.show::<N>();
    let (f, ids) = m.build::<N, Boom>();
    let mut md = M::<D>::read::<D, ANY>(&mut r);
    let mut i = 0;
    while i < D {
        md.data[i] = 100 + i as u8;
        i += 1;
    }
    let (mut g, gids) = md.build::<D, Boom>();
    let x = live(&mut r, &m, N);
    let y = live(&mut r, &md, D);
    let j = r.below(N);
    let jd = r.below(D);
    let root = r.bit();
    let mut cnt = 0;
    let mut given = None;
    let p = panics(|| {
        if let Some(n) = f.node(ids[x]) {
            if HOW == 0 {
                g.clone_foreign_tree(n);
            } else {
                g.clone_foreign_tree_with_id_mapping(n, |_, d| {
                    given = Some(d);
                    if HOW == 1 && cnt == b {
                        blow_up();
                    }
                    cnt += 1;
                });
            }
        }
    });
    chk(p == if HOW != 1 { m.in_sub(x, b) } else { b < m.size(x) }, "the panic is passed on");
    chk(m.matches(&f, &ids, j), "the nodes of the source");
    chk(md.matches(&g, &gids, jd), "the existing nodes of the destination");
    whole_node(&mut g, &gids, y, given);
    usable(&md, &mut g, &gids, y, jd, root);
    cover(p && m.size(x) > 2, "a panic while cloning several nodes");
}

/// Cloning the forest.
pub fn whole<const N: usize, const C: u8>() {
    let mut r = Rd::new();
    let mut m = M::<N>::read::<N, C>(&mut r);
    let b = r.below(N);
    m.data[b] |= 128;
    #[cfg(not(sym))]
    m.show::<N>();
    let (mut f, ids) = m.build::<N, Boom>();
    let y = live(&mut r, &m, N);
    let j = r.below(N);
    let root = r.bit();
    let p = panics(|| {
        let _ = f.clone();
    });
    chk(p == m.alive[b], "the panic is passed on");
    chk(m.matches(&f, &ids, j), "the existing nodes");
    usable(&m, &mut f, &ids, y, j, root);
    cover(p, "a panic");
}
