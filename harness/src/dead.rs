//! Dead and foreign IDs: P12.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// An ID that no node of the forest has (yet).
#[cfg(rawbuild)]
pub fn beyond(n: usize) -> VId {
    F::verif_id(n).unwrap()
}
#[cfg(not(rawbuild))]
pub fn beyond(n: usize) -> VId {
    let mut g = F::new();
    let mut v = g.create_root(0);
    for _ in 0..n {
        v = g.create_root(0);
    }
    v
}

/// `OP` on a node ID that is dead, or that no node has had yet, does not succeed and does not
/// change anything.
pub fn dead<const N: usize, const C: u8, const OP: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = r.below(N + 1);
    let j = r.below(N);
    let far = r.below(2) * 3;
    if x < N {
        assume(!m.alive[x]);
    }
    let d = if x < N { ids[x] } else { beyond(N + far) };
    // Any live node for operations on two nodes, or the dead node itself.
    let y = r.below(N + 1);
    if y < N {
        assume(m.alive[y]);
    }
    let e = if y < N { ids[y] } else { d };
    let k = OP & 3;
    match OP {
        // The moved node is dead.
        0..=3 => {
            let mut ok = false;
            let p = panics(|| ok = f.insert(d, dest(k, e)).is_ok());
            chk(p || !ok, "a dead node is inserted");
        }
        // The anchor is dead.
        4..=7 => {
            let mut ok = false;
            let p = panics(|| ok = f.insert(e, dest(k, d)).is_ok());
            chk(p || !ok, "a node is inserted near a dead node");
        }
        8..=11 => {
            let p = panics(|| {
                let _ = f.create_insert(7, dest(k, d));
            });
            chk(p, "a node is created near a dead node");
        }
        12 => chk(panics(|| f.detach(d)), "detach of a dead node returns"),
        13 => chk(panics(|| drop(f.detach_single(d))), "detach_single of a dead node returns"),
        14 => {
            chk(f.node(d).is_none(), "a dead node is found");
            chk(f.node_mut(d).is_none(), "a dead node is found for change");
            chk(f.data(d).is_none(), "a dead node has data");
            chk(f.data_mut(d).is_none(), "a dead node has data to change");
        }
        15 => chk(panics(|| drop(f.depth_first_traverse(d))), "depth_first_traverse of a dead node returns"),
        16 => chk(panics(|| drop(f.shallow_depth_first_traverse(d, None))), "shallow_depth_first_traverse of a dead node returns"),
        17 => chk(panics(|| drop(f.breadth_first_traverse(d))), "breadth_first_traverse of a dead node returns"),
        18 => chk(panics(|| drop(f.allocating_breadth_first_traverse(d))), "allocating_breadth_first_traverse of a dead node returns"),
        19 => chk(panics(|| drop(f.ancestors(d))), "ancestors of a dead node returns"),
        20 => chk(panics(|| drop(f.ancestors_or_self(d))), "ancestors_or_self of a dead node returns"),
        21 => chk(panics(|| drop(f.children(d))), "children of a dead node returns"),
        22 => chk(panics(|| drop(f.following_siblings(d))), "following_siblings of a dead node returns"),
        23 => chk(panics(|| drop(f.following_siblings_or_self(d))), "following_siblings_or_self of a dead node returns"),
        24 => chk(panics(|| drop(f.preceding_siblings(d))), "preceding_siblings of a dead node returns"),
        25 => chk(panics(|| drop(f.preceding_siblings_or_self(d))), "preceding_siblings_or_self of a dead node returns"),
        26 => chk(panics(|| drop(f.clone_local_tree(d))), "clone_local_tree of a dead node returns"),
        27 => chk(panics(|| drop(f.debug_print(d))), "debug_print of a dead node returns"),
        28 => chk(panics(|| f.remove(d)), "remove of a dead node returns"),
        29 => {
            let mut called = false;
            let p = panics(|| f.remove_hooked(d, |_| called = true));
            chk(!called, "remove_hooked of a dead node calls the hook");
            chk(p, "remove_hooked of a dead node returns");
        }
        _ => {
            let mut called = false;
            let p = panics(|| f.remove_hooked_panic_safe(d, |_| called = true));
            chk(!called, "remove_hooked_panic_safe of a dead node calls the hook");
            chk(p, "remove_hooked_panic_safe of a dead node returns");
        }
    }
    m.check(&f, &ids, j);
    if OP >= 8 && OP <= 11 {
        // The refused data does not turn up elsewhere.
        let d = r.upto(255);
        let n = f.create_root(d);
        chk(is_new(&ids, N, n), "the ID of a node that is created later");
        chk(f.data(n).copied() == Some(d), "data of a node that is created later");
        m.check(&f, &ids, j);
    }
    if OP < 8 || OP > 11 {
        if x < N {
            chk(f.node(d).is_none(), "a dead node is alive again");
        }
    }
    cover(x < N, "a removed node");
    cover(x == N, "an ID without a node");
}

/// Operations that the forest refuses with a panic say that the caller is to blame: the message
/// begins with `[precondition]`.
fn blamed(p: bool) {
    if p {
        chk(panic_tag() == 1, "a panic for a violated precondition says something else");
    }
}

/// `OP` on a dead or unknown ID.
pub fn blame<const N: usize, const C: u8, const OP: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = r.below(N + 1);
    let far = r.below(2) * 3;
    if x < N {
        assume(!m.alive[x]);
    }
    let d = if x < N { ids[x] } else { beyond(N + far) };
    let y = r.below(N + 1);
    if y < N {
        assume(m.alive[y]);
    }
    let e = if y < N { ids[y] } else { d };
    let k = OP & 3;
    let p = match OP {
        0..=3 => panics(|| drop(f.insert(d, dest(k, e)))),
        4..=7 => panics(|| drop(f.insert(e, dest(k, d)))),
        8..=11 => panics(|| {
            let _ = f.create_insert(7, dest(k, d));
        }),
        12 => panics(|| f.detach(d)),
        13 => panics(|| drop(f.detach_single(d))),
        14 => panics(|| {
            let mut seen = 0;
            let _ = f.clone_local_tree_with_id_mapping(d, |_, _| seen += 1);
            chk(seen == 0, "a dead node is cloned");
        }),
        15 => panics(|| drop(f.depth_first_traverse(d))),
        16 => panics(|| drop(f.shallow_depth_first_traverse(d, None))),
        17 => panics(|| drop(f.breadth_first_traverse(d))),
        18 => panics(|| drop(f.allocating_breadth_first_traverse(d))),
        19 => panics(|| drop(f.ancestors(d))),
        20 => panics(|| drop(f.ancestors_or_self(d))),
        21 => panics(|| drop(f.children(d))),
        22 => panics(|| drop(f.following_siblings(d))),
        23 => panics(|| drop(f.following_siblings_or_self(d))),
        24 => panics(|| drop(f.preceding_siblings(d))),
        25 => panics(|| drop(f.preceding_siblings_or_self(d))),
        26 => panics(|| {
            let _ = f.clone_local_tree(d);
        }),
        27 => panics(|| drop(f.debug_print(d))),
        28 => panics(|| f.remove(d)),
        29 => panics(|| f.remove_hooked(d, |_| ())),
        30 => panics(|| f.remove_hooked_panic_safe(d, |_| ())),
        // A live node is told to adopt the dead one.
        _ => {
            assume(y < N);
            panics(|| {
                if let Some(mut n) = f.node_mut(e) {
                    n.adopt(d, adopt(k));
                }
            })
        }
    };
    blamed(p);
    cover(x < N, "a removed node");
    cover(x == N, "an ID without a node");
}

/// Operations on live nodes that cannot be: `OP` 0..=3 creates near a node and 4..=7 lets a node
/// adopt another.
pub fn blame_live<const N: usize, const C: u8, const OP: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let y = live(&mut r, &m, N);
    let how = r.below(2);
    let k = OP & 3;
    let p = match OP {
        0..=3 => panics(|| {
            if how == 0 {
                let _ = f.create_insert(7, dest(k, ids[x]));
            } else if let Some(mut n) = f.node_mut(ids[x]) {
                let _ = n.create(7, adopt(k));
            }
        }),
        _ => panics(|| {
            if let Some(mut n) = f.node_mut(ids[x]) {
                n.adopt(ids[y], adopt(k));
            }
        }),
    };
    blamed(p);
    cover(!p, "it goes well");
    cover(p || OP < 2, "it is refused");
}

/// `K` steps of the chain builder, and one that cannot be: to the parent of a root, beside a
/// root, or from a node that the caller removed.
pub fn blame_chain<const K: usize>() {
    let mut r = Rd::new();
    let mut f = F::new();
    let mut depth = 0;
    let mut b = ChainTreeBuilder::new(&mut f, 0);
    let mut i = 0;
    while i < K {
        let k = r.upto(2);
        split(k as usize, 3);
        if k == 0 {
            b.child(1);
            depth += 1;
        } else {
            assume(depth > 0);
            if k == 1 {
                b.sibling(1);
            } else {
                b.parent();
                depth -= 1;
            }
        }
        i += 1;
    }
    let gone = r.below(3);
    let c = b.current_id();
    if gone == 1 {
        b.forest_mut().remove(c);
    } else if gone == 2 {
        let root = b.root_id();
        b.forest_mut().remove(root);
    }
    let k = r.upto(3);
    let p = panics(|| match k {
        0 => {
            b.parent();
        }
        1 => {
            b.sibling(1);
        }
        2 => {
            b.child(1);
        }
        _ => {
            b.try_parent();
        }
    });
    chk(p || gone == 0, "a builder goes on from a node that is gone");
    chk(!p || gone > 0 || (depth == 0 && k < 2), "a builder refuses a possible step");
    blamed(p);
    cover(p && gone == 0, "a step from a root");
    cover(p && gone > 0, "a step from a removed node");
}
