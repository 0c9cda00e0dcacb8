//! Structural operations: P02–P10, P12, P13.

use crate::env::*;
use crate::model::*;
use treena::dynamic::*;

/// Insertion at the place `K` of the anchor, through the forest or (`VIA` 1, 2) a node proxy.
pub fn insert<const N: usize, const C: u8, const K: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let a = live(&mut r, &m, N);
    let j = r.below(N);
    let mut w = m;
    let want = w.insert(x, K, a, true);
    match VIA {
        0 => {
            let res = f.insert(ids[x], dest(K, ids[a]));
            chk(want.agrees(&res), "result of the insertion");
        }
        1 => {
            let res = match f.node_mut(ids[a]) {
                Some(mut n) => n.try_adopt(ids[x], adopt(K)),
                None => return chk(false, "a live node has no proxy"),
            };
            chk(want.agrees(&res), "result of the adoption");
        }
        _ => {
            let p = panics(|| {
                if let Some(mut n) = f.node_mut(ids[a]) {
                    n.adopt(ids[x], adopt(K));
                }
            });
            chk(p == (want != Ins::Done), "adoption panics exactly if it is impossible");
        }
    }
    w.check(&f, &ids, j);
    cover(want == Ins::Done && m.parent[x] != M::<N>::NONE && m.first[x] != M::<N>::NONE, "an inner subtree is moved");
    cover(want == Ins::Loop && m.depth[a] > 1, "a loop is refused");
    cover(want == Ins::Done && (w.prev[x] == m.prev[x]) && (w.next[x] == m.next[x]) && (w.parent[x] == m.parent[x]), "the node is there already");
}

/// Only insertions that are refused.
pub fn refuse<const N: usize, const C: u8, const K: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let a = live(&mut r, &m, N);
    let j = r.below(N);
    let mut w = m;
    let want = w.insert(x, K, a, true);
    assume(want != Ins::Done);
    let res = if VIA == 0 {
        f.insert(ids[x], dest(K, ids[a]))
    } else {
        match f.node_mut(ids[a]) {
            Some(mut n) => n.try_adopt(ids[x], adopt(K)),
            None => return chk(false, "a live node has no proxy"),
        }
    };
    chk(res.is_err(), "an impossible insertion is refused");
    chk(want.agrees(&res), "the reason that is reported");
    m.check(&f, &ids, j);
    cover(want == Ins::Loop && m.depth[a] > 1, "a loop is refused");
    cover(K < 2 || want == Ins::NoParent, "siblings of a root are refused");
    cover(K < 2 || want == Ins::Unorderable, "siblings of itself are refused");
}

/// Creation of a root (`K` 4) or of a node at the place `K` of the anchor.
pub fn create<const N: usize, const B: usize, const C: u8, const K: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, mut f, mut ids) = start::<N, B, C>(&mut r);
    let j = r.below(N);
    let d = r.upto(255);
    let mut w = m;
    let new = B;
    if K == 4 {
        ids[new] = f.create_root(d);
        w.alive[new] = true;
        w.data[new] = d;
    } else {
        let a = live(&mut r, &m, B);
        if K >= 2 {
            assume(m.parent[a] != M::<N>::NONE);
        }
        ids[new] = if VIA == 0 {
            f.create_insert(d, dest(K, ids[a]))
        } else {
            match f.node_mut(ids[a]) {
                Some(mut n) => n.create(d, adopt(K)),
                None => return chk(false, "a live node has no proxy"),
            }
        };
        w.create(new, K, a, d);
        cover(m.first[a] != M::<N>::NONE, "the anchor has children");
    }
    chk(is_new(&ids, B, ids[new]), "the new ID has not been used before");
    w.check(&f, &ids, j);
}

/// Creation beside a root is refused with a panic, and then creation elsewhere does what it should.
pub fn create_refused<const N: usize, const B: usize, const C: u8, const K: u8>() {
    let mut r = Rd::new();
    let (m, mut f, mut ids) = start::<N, B, C>(&mut r);
    let j = r.below(N);
    let a = live(&mut r, &m, B);
    let d = r.upto(255);
    let under = r.bit();
    assume(m.parent[a] == M::<N>::NONE);
    chk(
        panics(|| {
            let _ = f.create_insert(77, dest(K, ids[a]));
        }),
        "creating a sibling of a root does not return",
    );
    if j < B {
        m.check(&f, &ids, j);
    }
    let mut w = m;
    w.alive[B] = true;
    w.data[B] = d;
    if under {
        ids[B] = f.create_insert(d, InsertAs::LastChildOf(ids[a]));
        w.create(B, 1, a, d);
    } else {
        ids[B] = f.create_root(d);
    }
    chk(is_new(&ids, B, ids[B]), "the new ID has not been used before");
    w.check(&f, &ids, j);
}

/// A creation, then any operation on any nodes.
pub fn create_then<const N: usize, const B: usize, const C: u8, const K: u8>() {
    let mut r = Rd::new();
    let (m, mut f, mut ids) = start::<N, B, C>(&mut r);
    let d = r.upto(255);
    let mut w = m;
    if K == 4 {
        ids[B] = f.create_root(d);
        w.alive[B] = true;
        w.data[B] = d;
    } else {
        let a = live(&mut r, &m, B);
        if K >= 2 {
            assume(m.parent[a] != M::<N>::NONE);
        }
        ids[B] = f.create_insert(d, dest(K, ids[a]));
        w.create(B, K, a, d);
    }
    then(&mut r, f, w, ids);
}

/// Any operation on any nodes does what it should.
#[inline(always)]
pub fn then<const N: usize>(r: &mut Rd, mut f: F, mut w: M<N>, ids: [VId; N]) {
    let k = r.upto(6);
    let x = live(r, &w, N);
    let a = live(r, &w, N);
    let j = r.below(N);
    crate::seq::op(&mut f, k, ids[x], ids[a]);
    crate::seq::effect(&mut w, k, x, a, false);
    w.check(&f, &ids, j);
}

pub fn detach<const N: usize, const C: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    if VIA == 0 {
        f.detach(ids[x]);
    } else {
        match f.node_mut(ids[x]) {
            Some(mut n) => n.detach(),
            None => return chk(false, "a live node has no proxy"),
        }
    }
    let mut w = m;
    w.unlink(x);
    w.check(&f, &ids, j);
    cover(m.prev[x] != M::<N>::NONE && m.next[x] != M::<N>::NONE, "a middle child");
    cover(m.prev[x] == M::<N>::NONE && m.next[x] != M::<N>::NONE && m.first[x] != M::<N>::NONE, "a first child with children");
}

pub fn detach_single<const N: usize, const C: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let res = if VIA == 0 {
        f.detach_single(ids[x])
    } else {
        match f.node_mut(ids[x]) {
            Some(mut n) => n.detach_single(),
            None => return chk(false, "a live node has no proxy"),
        }
    };
    let mut w = m;
    if w.splice_out(x) {
        chk(res.is_ok(), "taking out a single node is refused");
    } else {
        chk(matches!(res, Err(StructureError::SiblingsWithoutParent)), "children would be siblings without a parent");
    }
    w.check(&f, &ids, j);
    cover(res.is_ok() && m.prev[x] != M::<N>::NONE && m.first[x] != m.last[x], "several children take the place");
    cover(res.is_ok() && m.parent[x] == M::<N>::NONE && m.first[x] != M::<N>::NONE, "a root with one child");
    cover(res.is_err(), "refused");
}

/// Removal. `HOW`: 0 `remove`, 1 `remove_hooked`, 2 `remove_hooked_panic_safe`; +3: by proxy.
pub fn remove<const N: usize, const C: u8, const HOW: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let mut cnt = 0;
    let mut lastc = 0u8;
    let mut ok = true;
    {
        let mut hook = |d: u8| {
            let d = d as usize;
            if d < N {
                ok &= m.in_sub(x, d) & (m.close[d] > lastc);
                lastc = m.close[d];
            } else {
                ok = false;
            }
            cnt += 1;
        };
        match HOW {
            0 => f.remove(ids[x]),
            1 => f.remove_hooked(ids[x], &mut hook),
            2 => f.remove_hooked_panic_safe(ids[x], &mut hook),
            _ => match f.node_mut(ids[x]) {
                None => return chk(false, "a live node has no proxy"),
                Some(n) => match HOW {
                    3 => n.remove(),
                    4 => n.remove_hooked(&mut hook),
                    _ => n.remove_hooked_panic_safe(&mut hook),
                },
            },
        }
    }
    if HOW % 3 != 0 {
        chk(ok, "data is handed over in postorder, from the removed subtree");
        chk(cnt == m.size(x), "data of each removed node is handed over once");
    }
    let mut w = m;
    w.remove(x, true);
    w.check(&f, &ids, j);
    cover(m.prev[x] != M::<N>::NONE && m.next[x] != M::<N>::NONE, "a middle child");
    cover(m.size(x) > 2 && m.parent[x] != M::<N>::NONE, "a subtree inside a tree");
}

/// The hook panics at the `k`-th call.
pub fn remove_panic<const N: usize, const C: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let k = r.below(N);
    let j = r.below(N);
    let mut cnt = 0;
    let mut gone = [false; N];
    let mut lastc = 0u8;
    let mut ok = true;
    let p = panics(|| {
        let hook = |d: u8| {
            let d = d as usize;
            if d < N {
                ok &= m.in_sub(x, d) & (m.close[d] > lastc);
                lastc = m.close[d];
                gone[d] = true;
            } else {
                ok = false;
            }
            if cnt == k {
                blow_up();
            }
            cnt += 1;
        };
        if VIA == 0 {
            f.remove_hooked_panic_safe(ids[x], hook)
        } else if let Some(n) = f.node_mut(ids[x]) {
            n.remove_hooked_panic_safe(hook)
        }
    });
    chk(p == (k < m.size(x)), "the panic of the hook is passed on");
    chk(ok, "data is handed over in postorder, from the removed subtree");
    // What is left: the subtree, cut off, without the nodes whose data has been handed over.
    let mut w = m;
    w.unlink(x);
    let mut pos = 0;
    while pos < 2 * N {
        let mut i = 0;
        while i < N {
            if gone[i] && m.close[i] as usize == pos {
                w.unlink(i);
            }
            i += 1;
        }
        pos += 1;
    }
    let mut i = 0;
    while i < N {
        if gone[i] {
            w.alive[i] = false;
        }
        i += 1;
    }
    w.check(&f, &ids, j);
    cover(p && k == 1 && m.size(x) > 2, "in the middle");
}

/// After the panic of the hook, the forest can be used: any further operation on any node does
/// what it should.
pub fn remove_panic_then<const N: usize, const C: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    let k = r.below(N);
    let mut cnt = 0;
    let mut gone = [false; N];
    let _ = panics(|| {
        f.remove_hooked_panic_safe(ids[x], |d: u8| {
            if (d as usize) < N {
                gone[d as usize] = true;
            }
            if cnt == k {
                blow_up();
            }
            cnt += 1;
        })
    });
    let mut w = m;
    w.unlink(x);
    let mut pos = 0;
    while pos < 2 * N {
        let mut i = 0;
        while i < N {
            if gone[i] && m.close[i] as usize == pos {
                w.unlink(i);
            }
            i += 1;
        }
        pos += 1;
    }
    let mut i = 0;
    while i < N {
        if gone[i] {
            w.alive[i] = false;
        }
        i += 1;
    }
    then(&mut r, f, w, ids);
    cover(cnt == 1 && m.size(x) > 2, "in the middle");
}

/// Data with a destructor that counts.
pub struct Tok<'a>(pub u8, pub &'a core::cell::Cell<u32>);
impl Drop for Tok<'_> {
    fn drop(&mut self) {
        self.1.set(self.1.get() + 1)
    }
}

/// The data of removed nodes is dropped, and only that.
#[cfg(rawbuild)]
pub fn remove_drops<const N: usize, const HOW: u8>() {
    use core::cell::Cell;
    let mut r = Rd::new();
    let m = M::<N>::read::<N, ANY>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let z: [Cell<u32>; N] = core::array::from_fn(|_| Cell::new(0));
    let mut f = Forest::<VId, Tok<'_>>::new();
    let l = |v: u8| if v as usize >= N { None } else { Some(v as usize) };
    let mut i = 0;
    while i < N {
        f.verif_push_raw(
            if m.alive[i] { Some(Tok(i as u8, &z[i])) } else { None },
            [l(m.parent[i]), l(m.prev_cyclic(i)), l(m.next[i]), l(m.first[i])],
        );
        i += 1;
    }
    let xid = Forest::<VId, Tok<'_>>::verif_id(x).unwrap();
    match HOW {
        0 => f.remove(xid),
        1 => f.remove_hooked(xid, |_| ()),
        _ => f.remove_hooked_panic_safe(xid, |_| ()),
    }
    chk(z[j].get() == if m.in_sub(x, j) { 1 } else { 0 }, "data of the removed nodes is dropped once");
}
#[cfg(not(rawbuild))]
pub fn remove_drops<const N: usize, const HOW: u8>() {
    use core::cell::Cell;
    let mut r = Rd::new();
    let m = M::<N>::read::<N, ANY>(&mut r);
    let x = live(&mut r, &m, N);
    let j = r.below(N);
    let z: [Cell<u32>; N] = core::array::from_fn(|_| Cell::new(0));
    let mut f = Forest::<VId, Tok<'_>>::new();
    let ids: [VId; N] = core::array::from_fn(|i| f.create_root(Tok(i as u8, &z[i])));
    for pos in 1..2 * N {
        for i in 0..N {
            if m.alive[i] && m.parent[i] != M::<N>::NONE && m.open[i] as usize == pos {
                let _ = f.insert(ids[i], InsertAs::LastChildOf(ids[m.parent[i] as usize]));
            }
        }
    }
    for i in 0..N {
        if !m.alive[i] {
            f.remove(ids[i]);
            z[i].set(0);
        }
    }
    match HOW {
        0 => f.remove(ids[x]),
        1 => f.remove_hooked(ids[x], |_| ()),
        _ => f.remove_hooked_panic_safe(ids[x], |_| ()),
    }
    chk(z[j].get() == if m.in_sub(x, j) { 1 } else { 0 }, "data of the removed nodes is dropped once");
}

/// Access to data by ID and by proxy.
pub fn data<const N: usize, const C: u8, const VIA: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = r.below(N);
    let j = r.below(N);
    let d = r.upto(255);
    let mut w = m;
    chk(f.node(ids[x]).is_some() == m.alive[x], "a node is found exactly if it is alive");
    chk(f.data(ids[x]).is_some() == m.alive[x], "data is found exactly if the node is alive");
    let set = match VIA {
        0 => match f.data_mut(ids[x]) {
            None => false,
            Some(p) => {
                chk(*p == m.data[x], "data of the node");
                *p = d;
                true
            }
        },
        1 => match f.node_mut(ids[x]) {
            None => false,
            Some(mut n) => {
                chk(n.id() == ids[x] && *n.data() == m.data[x], "data of the node");
                *n.data_mut() = d;
                chk(*n.data() == d, "data that has just been set");
                true
            }
        },
        _ => match f.node_mut(ids[x]) {
            None => false,
            Some(n) => {
                *n.into_data_ref_mut() = d;
                true
            }
        },
    };
    chk(set == m.alive[x], "mutable data is found exactly if the node is alive");
    if set {
        w.data[x] = d;
    }
    w.check(&f, &ids, j);
    cover(!set, "a removed node");
}

/// The neighbours, as proxies.
pub fn neighbours<const N: usize, const C: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, N, C>(&mut r);
    let x = live(&mut r, &m, N);
    m.check(&f, &ids, x);
    {
        let n = match f.node(ids[x]) {
            Some(n) => n,
            None => return chk(false, "a live node is not found"),
        };
        chk(core::ptr::eq(n.forest(), &f), "forest of the proxy");
        chk(n.parent().map(|v| v.id()) == id(&ids, m.parent[x]), "parent");
        chk(n.prev_sibling().map(|v| v.id()) == id(&ids, m.prev[x]), "previous sibling");
        chk(n.next_sibling().map(|v| v.id()) == id(&ids, m.next[x]), "next sibling");
        chk(n.first_child().map(|v| v.id()) == id(&ids, m.first[x]), "first child");
        chk(n.last_child().map(|v| v.id()) == id(&ids, m.last[x]), "last child");
        let fl = id(&ids, m.first[x]).zip(id(&ids, m.last[x]));
        chk(n.first_last_child_id() == fl, "first and last child IDs");
        chk(n.first_last_child().map(|(a, b)| (a.id(), b.id())) == fl, "first and last child");
        let c = n;
        chk(c.id() == n.id() && *c.data() == m.data[x], "copy of the proxy");
    }
    match f.node_mut(ids[x]) {
        Some(n) => {
            chk(n.id() == ids[x] && n.node().id() == ids[x] && *n.data() == m.data[x], "mutable proxy");
            chk(n.node().parent_id() == id(&ids, m.parent[x]), "parent by the mutable proxy");
            chk(n.forest().node(ids[x]).is_some(), "forest of the mutable proxy");
            let k = n.into_node();
            chk(k.id() == ids[x] && k.first_child_id() == id(&ids, m.first[x]), "proxy made from the mutable proxy");
        }
        None => chk(false, "a live node has no mutable proxy"),
    }
}
