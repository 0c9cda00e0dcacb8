//! Forests of hundreds of nodes, of a fixed shape, for what depends on size (widths of counters and
//! indices, capacities, recursion). The operands are few; each of them is executed separately.

use crate::env::*;
use crate::model::{CHAIN, COMB, FAN, HEAP};
use treena::dynamic::*;

type Id = NodeIdUsize;
pub type G = Forest<Id, u16>;

/// Links, positions and depths; `N` stands for "none".
pub struct L<const N: usize> {
    parent: [u16; N],
    prev: [u16; N],
    next: [u16; N],
    first: [u16; N],
    last: [u16; N],
    open: [u16; N],
    close: [u16; N],
    depth: [u16; N],
}

#[inline(always)]
fn parent_of(c: u8, i: usize) -> usize {
    match c {
        CHAIN => i - 1,
        FAN => 0,
        COMB => {
            if i <= 3 {
                0
            } else {
                (i - 1) / 3 * 3 - 1
            }
        }
        _ => (i - 1) / 2,
    }
}

impl<const N: usize> L<N> {
    #[inline(never)]
    fn new(c: u8) -> Self {
        let n = N as u16;
        let mut m = L { parent: [n; N], prev: [n; N], next: [n; N], first: [n; N], last: [n; N], open: [0; N], close: [0; N], depth: [0; N] };
        let mut i = 1;
        while i < N {
            let p = parent_of(c, i);
            m.parent[i] = p as u16;
            m.depth[i] = m.depth[p] + 1;
            let v = m.last[p];
            m.prev[i] = v;
            if v == n {
                m.first[p] = i as u16
            } else {
                m.next[v as usize] = i as u16
            }
            m.last[p] = i as u16;
            i += 1;
        }
        let mut pos = 0;
        let mut x = 0;
        let mut down = true;
        loop {
            if down {
                m.open[x] = pos;
                if m.first[x] != n {
                    x = m.first[x] as usize;
                } else {
                    down = false;
                    pos += 1;
                    m.close[x] = pos;
                }
            } else if x == 0 {
                break;
            } else if m.next[x] != n {
                x = m.next[x] as usize;
                down = true;
            } else {
                x = m.parent[x] as usize;
                pos += 1;
                m.close[x] = pos;
                continue;
            }
            if down {
                pos += 1;
            }
        }
        m
    }

    #[inline(always)]
    fn within(&self, x: usize, i: usize) -> bool {
        self.open[i] >= self.open[x] && self.close[i] <= self.close[x]
    }
    #[inline(always)]
    fn size(&self, x: usize) -> usize {
        (self.close[x] - self.open[x]) as usize / 2 + 1
    }
    /// The event at a position: the node, and whether it is opened.
    #[inline(never)]
    fn events(&self) -> [(u16, bool); 1024] {
        let mut e = [(0, false); 1024];
        let mut i = 0;
        while i < N {
            e[self.open[i] as usize & 1023] = (i as u16, true);
            e[self.close[i] as usize & 1023] = (i as u16, false);
            i += 1;
        }
        e
    }
}

#[inline(never)]
fn make<const N: usize>(c: u8) -> (G, [Id; N]) {
    let mut f = G::new();
    let z = f.create_root(0);
    let mut ids = [z; N];
    let mut i = 1;
    while i < N {
        ids[i] = f.create_insert(i as u16, InsertAs::LastChildOf(ids[parent_of(c, i)]));
        i += 1;
    }
    (f, ids)
}

#[inline(always)]
fn opt<const N: usize>(ids: &[Id; N], i: u16) -> Option<Id> {
    if i as usize >= N {
        None
    } else {
        Some(ids[i as usize])
    }
}

/// A node, chosen by the solver, is as the model says.
#[inline(never)]
fn same<const N: usize>(m: &L<N>, f: &G, ids: &[Id; N]) {
    let mut r = Rd::new();
    let i = r.upto(255) as usize + 256 * r.upto((N / 256) as u8) as usize;
    if i >= N {
        return;
    }
    match f.node(ids[i]) {
        None => chk(false, "a live node is not found"),
        Some(n) => {
            chk(n.parent_id() == opt(ids, m.parent[i]), "parent");
            chk(n.prev_sibling_id() == opt(ids, m.prev[i]), "previous sibling");
            chk(n.next_sibling_id() == opt(ids, m.next[i]), "next sibling");
            chk(n.first_child_id() == opt(ids, m.first[i]), "first child");
            chk(n.last_child_id() == opt(ids, m.last[i]), "last child");
            chk(*n.data() == i as u16 && n.id() == ids[i], "data");
        }
    }
}

/// Runs `f` with each of `0..n`.
macro_rules! each {
    ($n:expr, $f:expr) => {{
        let mut i = 0;
        while i < $n {
            $f(i);
            i += 1;
        }
    }};
}

/// Some of the nodes: the root, its child, one in the middle, the last one.
#[inline(always)]
fn pick<const N: usize>(k: usize) -> usize {
    match k {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => N / 2,
        _ => N - 1,
    }
}

pub fn dft<const N: usize, const C: u8>() {
    each!(3, |pat: usize| {
        let m = L::<N>::new(C);
        let (f, ids) = make::<N>(C);
        let e = m.events();
        for x in [0, 1, N / 2] {
            let mut it = f.depth_first_traverse(ids[x]);
            let (mut lo, mut hi) = (m.open[x] as i32, m.close[x] as i32);
            let mut k = 0;
            let mut ok = true;
            while lo <= hi {
                // 0: forward, 1: backward, 2: mixed
                let back = pat == 1 || (pat == 2 && k % 3 == 1);
                let (w, o) = e[(if back { hi } else { lo }) as usize & 1023];
                let ev = if back { it.next_back() } else { it.next() };
                ok &= match ev {
                    None => false,
                    Some(DftEvent::Open(n)) => o && n.id() == ids[w as usize],
                    Some(DftEvent::Close(n)) => !o && n.id() == ids[w as usize],
                };
                if back {
                    hi -= 1
                } else {
                    lo += 1
                }
                k += 1;
            }
            chk(ok, "order of the events");
            chk(it.next().is_none() && it.next_back().is_none(), "the traversal goes on after its end");
        }
    });
}

pub fn shallow<const N: usize, const C: u8>() {
    each!(3, |pat: usize| {
        let m = L::<N>::new(C);
        let (f, ids) = make::<N>(C);
        let e = m.events();
        for (x, limit) in [(0, None), (0, Some(1)), (0, Some(N)), (1, Some(0)), (1, Some(N - 3)), (2, Some(257))] {
            let mut it = f.shallow_depth_first_traverse(ids[x], limit);
            let lim = limit.unwrap_or(N);
            let (mut lo, mut hi) = (m.open[x] as i32, m.close[x] as i32);
            let mut k = 0;
            let mut ok = true;
            loop {
                let back = pat == 1 || (pat == 2 && k % 3 == 1);
                // Skip what is too deep.
                while lo <= hi && (m.depth[e[lo as usize & 1023].0 as usize] - m.depth[x]) as usize > lim {
                    lo += 1;
                }
                while lo <= hi && (m.depth[e[hi as usize & 1023].0 as usize] - m.depth[x]) as usize > lim {
                    hi -= 1;
                }
                if lo > hi {
                    break;
                }
                let (w, o) = e[(if back { hi } else { lo }) as usize & 1023];
                let d = (m.depth[w as usize] - m.depth[x]) as usize;
                let ev = if back { it.next_back() } else { it.next() };
                ok &= match ev {
                    None => false,
                    Some((DftEvent::Open(n), dd)) => o && n.id() == ids[w as usize] && d == dd,
                    Some((DftEvent::Close(n), dd)) => !o && n.id() == ids[w as usize] && d == dd,
                };
                if back {
                    hi -= 1
                } else {
                    lo += 1
                }
                k += 1;
            }
            chk(ok, "order and depths of the events");
            chk(it.next().is_none() && it.next_back().is_none(), "the traversal goes on after its end");
        }
    });
}

pub fn bft<const N: usize, const C: u8, const HOW: u8>() {
    each!(3, |k: usize| {
        let m = L::<N>::new(C);
        let (f, ids) = make::<N>(C);
        let x = pick::<N>(k);
        let e = m.events();
        let mut cnt = 0;
        let (mut ld, mut lp) = (0, 0);
        let mut ok = true;
        macro_rules! go {
            ($it:ident) => {{
                while let Some((n, d)) = $it.next() {
                    let j = *n.data() as usize;
                    if j >= N || cnt > N {
                        ok = false;
                        break;
                    }
                    ok &= n.id() == ids[j] && m.within(x, j) && d == (m.depth[j] - m.depth[x]) as usize;
                    ok &= cnt == 0 || d > ld || (d == ld && m.open[j] > lp);
                    ld = d;
                    lp = m.open[j];
                    cnt += 1;
                }
                chk($it.next().is_none(), "the traversal resumes after its end");
            }};
        }
        if HOW == 0 {
            let mut it = f.breadth_first_traverse(ids[x]);
            go!(it);
        } else {
            let mut it = f.allocating_breadth_first_traverse(ids[x]);
            go!(it);
        }
        chk(ok, "order, depths and nodes");
        chk(cnt == m.size(x), "number of nodes");
        let _ = e;
    });
}

pub fn siblings<const N: usize, const K: u8>() {
    each!(3, |pat: usize| {
        let m = L::<N>::new(FAN);
        let (f, ids) = make::<N>(FAN);
        for x in if K == 0 { [0, 0, 1] } else { [1, N / 2, N - 1] } {
            let (mut lo, mut hi, mut it) = match K {
                0 => (1, if x == 0 { N - 1 } else { 0 }, f.children(ids[x])),
                1 => (x + 1, N - 1, f.following_siblings(ids[x])),
                2 => (x, N - 1, f.following_siblings_or_self(ids[x])),
                3 => (1, x - 1, f.preceding_siblings(ids[x])),
                _ => (1, x, f.preceding_siblings_or_self(ids[x])),
            };
            let mut k = 0;
            let mut ok = true;
            while lo <= hi {
                let back = pat == 1 || (pat == 2 && k % 3 == 1);
                let n = if back { it.next_back() } else { it.next() };
                ok &= n.map(|n| n.id()) == Some(ids[if back { hi } else { lo }]);
                if back {
                    hi -= 1
                } else {
                    lo += 1
                }
                k += 1;
            }
            chk(ok, "order of the nodes");
            chk(it.next().is_none() && it.next_back().is_none(), "the iteration goes on after its end");
        }
        let _ = m;
    });
}

pub fn ancestors<const N: usize, const C: u8>() {
    each!(2, |k: usize| {
        let m = L::<N>::new(C);
        let (f, ids) = make::<N>(C);
        for x in [0, 1, N / 2, N - 1] {
            let mut it = if k == 0 { f.ancestors(ids[x]) } else { f.ancestors_or_self(ids[x]) };
            let mut cur = if k == 0 { m.parent[x] } else { x as u16 };
            let mut ok = true;
            while (cur as usize) < N {
                ok &= it.next().map(|n| n.id()) == Some(ids[cur as usize]);
                cur = m.parent[cur as usize];
            }
            chk(ok, "order of the nodes");
            chk(it.next().is_none(), "the iteration goes on after its end");
        }
    });
}

/// `HOW`: 0 local clone, 1 foreign clone, 2 clone of the forest.
pub fn clone<const N: usize, const C: u8, const HOW: u8>() {
    each!(if HOW == 2 { 1 } else { 3 }, |k: usize| {
        let m = L::<N>::new(C);
        let (mut f, ids) = make::<N>(C);
        let x = pick::<N>(k);
        if HOW == 2 {
            let g = f.clone();
            same(&m, &g, &ids);
            f.detach(ids[1]);
            f.remove(ids[0]);
            same(&m, &g, &ids);
            return;
        }
        let mut map: [Option<Id>; N] = [None; N];
        let mut ok = true;
        let hook = |s: Id, d: Id| {
            let mut i = 0;
            let mut found = false;
            let s = s.to_internal();
            while i < N {
                if ids[i].to_internal() == s {
                    ok &= map[i].is_none();
                    map[i] = Some(d);
                    found = true;
                    break;
                }
                i += 1;
            }
            ok &= found;
        };
        let mut g = G::new();
        let c = if HOW == 0 {
            f.clone_local_tree_with_id_mapping(ids[x], hook)
        } else {
            match f.node(ids[x]) {
                None => return chk(false, "a live node is not found"),
                Some(n) => g.clone_foreign_tree_with_id_mapping(n, hook),
            }
        };
        let g = if HOW == 0 { &f } else { &g };
        ok &= map[x] == Some(c);
        let mut i = 0;
        while i < N {
            ok &= map[i].is_some() == m.within(x, i);
            if let Some(d) = map[i] {
                let to = |y: u16| if y as usize >= N { None } else { map[y as usize] };
                ok &= match g.node(d) {
                    None => false,
                    Some(n) => {
                        (if i == x {
                            n.parent_id().is_none() && n.prev_sibling_id().is_none() && n.next_sibling_id().is_none()
                        } else {
                            n.parent_id() == to(m.parent[i]) && n.prev_sibling_id() == to(m.prev[i]) && n.next_sibling_id() == to(m.next[i])
                        }) && n.first_child_id() == to(m.first[i])
                            && n.last_child_id() == to(m.last[i])
                            && *n.data() == i as u16
                    }
                };
            }
            i += 1;
        }
        chk(ok, "the clone is what it should be");
        same(&m, &f, &ids);
    });
}

/// Removal of the subtree: `HOW` 0 plain, 1 hooked, 2 hooked and panic-safe; 3: the hook panics.
pub fn remove<const N: usize, const C: u8, const HOW: u8>() {
    each!(3, |k: usize| {
        let m = L::<N>::new(C);
        let (mut f, ids) = make::<N>(C);
        let x = pick::<N>(k);
        let mut ok = true;
        let mut cnt = 0;
        let mut lc = 0;
        let mut hook = |d: u16| {
            let d = d as usize;
            ok &= d < N && m.within(x, d) && m.close[d] > lc;
            if d < N {
                lc = m.close[d];
            }
            cnt += 1;
            if HOW == 3 && cnt == 280 {
                blow_up();
            }
        };
        match HOW {
            0 => f.remove(ids[x]),
            1 => f.remove_hooked(ids[x], hook),
            2 => f.remove_hooked_panic_safe(ids[x], hook),
            _ => {
                let p = panics(|| f.remove_hooked_panic_safe(ids[x], &mut hook));
                chk(p == (m.size(x) >= 280), "the panic of the hook is passed on");
            }
        }
        if HOW > 0 {
            chk(ok, "data is handed over in postorder, from the removed subtree");
            chk(HOW == 3 || cnt == m.size(x), "data of each removed node is handed over once");
        }
        let mut ok = true;
        let mut i = 0;
        while i < N {
            let out = m.within(x, i);
            if out {
                let gone = HOW < 3 || m.close[i] <= lc;
                ok &= f.node(ids[i]).is_none() == gone;
            } else {
                ok &= match f.node(ids[i]) {
                    None => false,
                    Some(n) => {
                        let p = m.parent[x] == i as u16;
                        n.parent_id() == opt(&ids, m.parent[i])
                            && n.prev_sibling_id() == opt(&ids, if m.prev[i] == x as u16 { m.prev[x] } else { m.prev[i] })
                            && n.next_sibling_id() == opt(&ids, if m.next[i] == x as u16 { m.next[x] } else { m.next[i] })
                            && n.first_child_id() == opt(&ids, if p && m.first[i] == x as u16 { m.next[x] } else { m.first[i] })
                            && n.last_child_id() == opt(&ids, if p && m.last[i] == x as u16 { m.prev[x] } else { m.last[i] })
                            && *n.data() == i as u16
                    }
                };
            }
            i += 1;
        }
        chk(ok, "what is left of the forest");
        // New nodes get new IDs.
        let a = f.create_root(999);
        let b = f.create_insert(1000, InsertAs::LastChildOf(if x > 0 && HOW < 3 { ids[0] } else { a }));
        let mut ok = a != b && f.data(a).copied() == Some(999) && f.data(b).copied() == Some(1000);
        let mut i = 0;
        while i < N {
            ok &= ids[i] != a && ids[i] != b;
            i += 1;
        }
        chk(ok, "nodes that are created after a removal");
    });
}

/// Detaching, refused insertions far below, and reinsertion.
pub fn moves<const N: usize, const C: u8, const WHAT: u8>() {
    each!(3, |k: usize| {
        let mut m = L::<N>::new(C);
        let (mut f, ids) = make::<N>(C);
        let x = pick::<N>(k);
        let none = N as u16;
        match WHAT {
            // The deepest node cannot take the others as children.
            0 => {
                for d in [N - 1, N - 2, N / 2] {
                    if d != x && m.within(x, d) {
                        for q in [InsertAs::FirstChildOf(ids[d]), InsertAs::LastChildOf(ids[d])] {
                            chk(matches!(f.insert(ids[x], q), Err(StructureError::AncestorDescendantLoop)), "a loop is refused");
                        }
                        if m.parent[d] != x as u16 {
                            for q in [InsertAs::PreviousSiblingOf(ids[d]), InsertAs::NextSiblingOf(ids[d])] {
                                chk(matches!(f.insert(ids[x], q), Err(StructureError::AncestorDescendantLoop)), "a loop is refused");
                            }
                        }
                    }
                }
                same(&m, &f, &ids);
            }
            // The last node moves to every place near `x`.
            1 => {
                if x == 0 {
                    return;
                }
                let l = N - 1;
                for q in 0..4 {
                    let m = {
                        let mut w = L::<N>::new(C);
                        w.cut(l);
                        let p = if q < 2 { x } else { w.parent[x] as usize };
                        let v = match q {
                            0 => none,
                            1 => w.last[p],
                            2 => w.prev[x],
                            _ => x as u16,
                        };
                        w.put(l, p, v);
                        w
                    };
                    let d = match q {
                        0 => InsertAs::FirstChildOf(ids[x]),
                        1 => InsertAs::LastChildOf(ids[x]),
                        2 => InsertAs::PreviousSiblingOf(ids[x]),
                        _ => InsertAs::NextSiblingOf(ids[x]),
                    };
                    chk(f.insert(ids[l], d).is_ok(), "an insertion succeeds");
                    same(&m, &f, &ids);
                }
            }
            // Detached.
            2 => {
                f.detach(ids[x]);
                m.cut(x);
                same(&m, &f, &ids);
            }
            // Detached without its children.
            _ => {
                let res = f.detach_single(ids[x]);
                let possible = m.parent[x] != none || m.first[x] == m.last[x];
                chk(res.is_ok() == possible, "result of detaching");
                if possible {
                    m.splice(x);
                }
                same(&m, &f, &ids);
            }
        }
    });
}

impl<const N: usize> L<N> {
    fn cut(&mut self, x: usize) {
        let none = N as u16;
        let (p, v, n) = (self.parent[x], self.prev[x], self.next[x]);
        if p == none {
            return;
        }
        if v == none {
            self.first[p as usize] = n
        } else {
            self.next[v as usize] = n
        }
        if n == none {
            self.last[p as usize] = v
        } else {
            self.prev[n as usize] = v
        }
        self.parent[x] = none;
        self.prev[x] = none;
        self.next[x] = none;
    }
    fn put(&mut self, x: usize, p: usize, v: u16) {
        let none = N as u16;
        let n = if v == none { self.first[p] } else { self.next[v as usize] };
        self.parent[x] = p as u16;
        self.prev[x] = v;
        self.next[x] = n;
        if v == none {
            self.first[p] = x as u16
        } else {
            self.next[v as usize] = x as u16
        }
        if n == none {
            self.last[p] = x as u16
        } else {
            self.prev[n as usize] = x as u16
        }
    }
    fn splice(&mut self, x: usize) {
        let none = N as u16;
        let (p, mut v) = (self.parent[x], self.prev[x]);
        self.cut(x);
        while self.first[x] != none {
            let c = self.first[x] as usize;
            self.cut(c);
            if p != none {
                self.put(c, p as usize, v);
                v = c as u16;
            }
        }
    }
}

/// A chain builder (`HOW` 0: down and up again; 1: along) and a nest builder (2) with many steps.
pub fn builder<const N: usize, const HOW: u8>() {
    let mut f = G::new();
    let c = if HOW == 0 { CHAIN } else { FAN };
    let m = L::<N>::new(c);
    let mut ids;
    if HOW == 2 {
        let mut b = NestTreeBuilder::new(&mut f, 0);
        ids = [b.root(); N];
        let mut i = 1;
        while i < N {
            b.add_child(i as u16);
            i += 1;
        }
        let r = b.root();
        for (i, n) in f.children(r).enumerate() {
            if i + 1 < N {
                ids[i + 1] = n.id();
            }
        }
    } else {
        let mut b = ChainTreeBuilder::new(&mut f, 0);
        ids = [b.root_id(); N];
        let mut i = 1;
        while i < N {
            ids[i] = if HOW == 0 || i == 1 { b.child(i as u16) } else { b.sibling(i as u16) }.current_id();
            i += 1;
        }
        let mut ok = true;
        let mut i = N - 1;
        while m.parent[i] as usize != N {
            i = m.parent[i] as usize;
            ok &= b.try_parent().map(|b| b.current_id()) == Some(ids[i]);
        }
        chk(ok, "up again");
        chk(b.try_parent().is_none(), "up from the root");
    }
    same(&m, &f, &ids);
}

/// The whole forest through the accessors.
pub fn read<const N: usize, const C: u8>() {
    let m = L::<N>::new(C);
    let (mut f, ids) = make::<N>(C);
    same(&m, &f, &ids);
    let mut ok = true;
    let mut i = 0;
    while i < N {
        ok &= f.data(ids[i]).copied() == Some(i as u16);
        if let Some(d) = f.data_mut(ids[i]) {
            *d = !*d;
        }
        i += 1;
    }
    let mut i = 0;
    while i < N {
        ok &= f.data(ids[i]).copied() == Some(!(i as u16));
        i += 1;
    }
    chk(ok, "data of the nodes");
}

pub const SHAPES: [u8; 4] = [CHAIN, FAN, COMB, HEAP];

/// Compares what is written with the expected print of the subtree of `x`, character by character.
struct Expect<'a, const N: usize> {
    m: &'a L<N>,
    x: usize,
    /// The node of the current line, or `N` when there is none left.
    cur: usize,
    col: usize,
    lines: usize,
    ok: bool,
    /// What the numbers of the letters are combined with, chosen by the solver.
    key: u8,
    /// The nodes from below `x` down to the current one.
    path: [u16; N],
}

impl<'a, const N: usize> Expect<'a, N> {
    #[inline(always)]
    fn depth(&self) -> usize {
        (self.m.depth[self.cur] - self.m.depth[self.x]) as usize
    }
    #[inline(never)]
    fn newline(&mut self) {
        if self.cur >= N {
            self.ok = false;
            return;
        }
        self.ok &= self.col == 4 * self.depth() + 1;
        self.lines += 1;
        self.col = 0;
        let n = N as u16;
        // The next node in document order.
        let mut c = self.cur;
        let next = if self.m.first[c] != n {
            self.m.first[c]
        } else {
            loop {
                if c == self.x {
                    break n;
                }
                if self.m.next[c] != n {
                    break self.m.next[c];
                }
                c = self.m.parent[c] as usize;
            }
        };
        self.cur = next as usize;
        if self.cur < N {
            let d = self.depth();
            self.path[d - 1] = next;
        }
    }
    #[inline(never)]
    fn put(&mut self, b: u8) {
        if b == b'\n' {
            return self.newline();
        }
        if self.cur >= N {
            self.ok = false;
            return;
        }
        let d = self.depth();
        let e = if self.col < 4 * d {
            let l = self.col / 4;
            let last = self.m.next[self.path[l] as usize] == N as u16;
            let item = l + 1 == d;
            match (self.col % 4, item, last) {
                (0, true, true) => b'`',
                (0, false, true) => b' ',
                (0, _, false) => b'|',
                (3, ..) => b' ',
                (_, true, _) => b'-',
                _ => b' ',
            }
        } else {
            b'a' + (self.cur as u8 & 15 ^ self.key)
        };
        self.ok &= b == e && self.col <= 4 * d;
        self.col += 1;
    }
}

impl<'a, const N: usize> core::fmt::Write for Expect<'a, N> {
    #[inline(never)]
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            self.put(b[i]);
            i += 1;
        }
        Ok(())
    }
}

/// Data that is shown as one letter.
struct Letter(u16);
impl core::fmt::Display for Letter {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        let i = (self.0 & 15) as usize;
        f.write_str(&"abcdefghijklmnop"[i..i + 1])
    }
}

/// The debug print of large subtrees.
pub fn print<const N: usize, const C: u8>() {
    use core::fmt::Write;
    each!(3, |k: usize| {
        let m = L::<N>::new(C);
        let key = Rd::new().upto(15);
        let mut f = Forest::<Id, Letter>::new();
        let z = f.create_root(Letter(key as u16));
        let mut ids = [z; N];
        let mut i = 1;
        while i < N {
            ids[i] = f.create_insert(Letter(i as u16 ^ key as u16), InsertAs::LastChildOf(ids[parent_of(C, i)]));
            i += 1;
        }
        let x = pick::<N>(k);
        let mut e = Expect { m: &m, x, cur: x, col: 0, lines: 0, ok: true, key, path: [0; N] };
        chk(write!(e, "{}", f.debug_print(ids[x])).is_ok(), "the printing fails");
        chk(e.ok, "a character of the print");
        chk(e.lines + 1 == m.size(x) && e.cur < N && e.col == 4 * e.depth() + 1, "the number of lines");
    });
}
