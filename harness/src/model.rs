//! Model of a forest with at most `N` slots, and the meaning of the operations on it.

use crate::env::*;
use treena::dynamic::*;

/// A custom node ID type.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct VId(NodeIdU8);
treena::impl_dynamic_node_id!(VId, NodeIdU8, 0);

pub type F = Forest<VId, u8>;

/// Data that is told apart by a number.
pub trait Num: Sized {
    fn of(v: u8) -> Self;
    fn num(&self) -> u8;
}
impl Num for u8 {
    #[inline(always)]
    fn of(v: u8) -> u8 {
        v
    }
    #[inline(always)]
    fn num(&self) -> u8 {
        *self
    }
}

/// Which pre-states are explored.
/// Any well-formed forest, with any numbering of the nodes, some of which may have been removed.
pub const ANY: u8 = 0;
/// Any well-formed forest whose live nodes are numbered in document order.
pub const ORD: u8 = 1;
/// One large forest, of a fixed shape: a tree, a removed slot, and a tree of three nodes.
/// A chain.
pub const CHAIN: u8 = 2;
/// A root with many children.
pub const FAN: u8 = 3;
/// A chain each node of which also has a leaf on either side of the next one.
pub const COMB: u8 = 4;
/// A complete binary tree, numbered breadth-first.
pub const HEAP: u8 = 5;

/// Parent of node `i` of the large tree, and whether it is its first child (otherwise the last).
#[inline(always)]
fn shape(c: u8, i: usize) -> (usize, bool) {
    match c {
        CHAIN => (i - 1, false),
        FAN => (0, i % 2 == 0),
        // 0; 1 2 3 are the children of 0, 4 5 6 those of 2, 7 8 9 those of 5…
        COMB => (if i <= 3 { 0 } else { (i - 1) / 3 * 3 - 1 }, false),
        _ => ((i - 1) / 2, false),
    }
}

/// Links of all slots. `N` stands for "none".
#[derive(Clone, Copy)]
pub struct M<const N: usize> {
    pub alive: [bool; N],
    pub parent: [u8; N],
    pub prev: [u8; N],
    pub next: [u8; N],
    pub first: [u8; N],
    pub last: [u8; N],
    /// Positions of the open and close events in the depth-first traversal of the tree.
    pub open: [u8; N],
    pub close: [u8; N],
    pub depth: [u8; N],
    pub root: [u8; N],
    pub data: [u8; N],
}

#[inline(always)]
pub fn at<const N: usize>(a: &[u8; N], i: u8) -> u8 {
    if (i as usize) < N {
        a[i as usize]
    } else {
        N as u8
    }
}

/// Result of an insertion.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ins {
    Done,
    Loop,
    Unorderable,
    NoParent,
    /// Both of the previous two reasons apply.
    UnorderableOrNoParent,
}

impl Ins {
    #[inline(always)]
    pub fn agrees(self, r: &Result<(), StructureError>) -> bool {
        match r {
            Ok(()) => self == Ins::Done,
            Err(StructureError::AncestorDescendantLoop) => self == Ins::Loop,
            Err(StructureError::UnorderableSiblings) => self == Ins::Unorderable || self == Ins::UnorderableOrNoParent,
            Err(StructureError::SiblingsWithoutParent) => self == Ins::NoParent || self == Ins::UnorderableOrNoParent,
        }
    }
}

impl<const N: usize> M<N> {
    pub const NONE: u8 = N as u8;

    #[inline(always)]
    pub fn empty() -> Self {
        let n = N as u8;
        let mut data = [0; N];
        let mut i = 0;
        while i < N {
            data[i] = i as u8;
            i += 1;
        }
        M {
            alive: [false; N],
            parent: [n; N],
            prev: [n; N],
            next: [n; N],
            first: [n; N],
            last: [n; N],
            open: [0; N],
            close: [0; N],
            depth: [0; N],
            root: [n; N],
            data,
        }
    }

    /// Any well-formed forest of which the first `B` slots have been created.
    #[inline(never)]
    pub fn read<const B: usize, const C: u8>(r: &mut Rd) -> Self {
        if C >= CHAIN {
            return Self::large::<B>(C);
        }
        let n = B as u8;
        let none = Self::NONE;
        let mut m = Self::empty();
        let mut i = 0;
        while i < B {
            m.alive[i] = r.bit();
            i += 1;
        }
        macro_rules! link {
            ($($f:ident)*) => { $(
                let a: [u8; B] = r.arr(n);
                let mut i = 0;
                while i < B {
                    m.$f[i] = if a[i] == n { none } else { a[i] };
                    i += 1;
                }
            )* }
        }
        macro_rules! num {
            ($($f:ident $hi:expr;)*) => { $(
                let a: [u8; B] = r.arr($hi);
                let mut i = 0;
                while i < B {
                    m.$f[i] = a[i];
                    i += 1;
                }
            )* }
        }
        link!(parent prev next first last root);
        num!(open 2 * n - 2; close 2 * n - 1; depth n - 1;);
        assume(m.is_ok::<B>());
        if C == ORD {
            let mut ok = m.alive[0] & (m.parent[0] == none);
            let mut i = 1;
            while i < B {
                ok &= m.alive[i]
                    & (if m.parent[i] == none {
                        m.root[i] == i as u8
                    } else {
                        (m.root[i] == m.root[i - 1]) & (m.open[i] > m.open[i - 1])
                    });
                i += 1;
            }
            assume(ok);
        }
        m
    }

    /// A large forest.
    #[inline(never)]
    pub fn large<const B: usize>(c: u8) -> Self {
        let none = Self::NONE;
        let mut m = Self::empty();
        // B - 5 is removed, B - 4 is the root of the small tree. B - 1 is in the large tree.
        let mut i = 0;
        while i < B {
            m.alive[i] = i != B - 5;
            if i > 0 && i < B - 5 {
                let (p, first) = shape(c, i);
                let v = if first { none } else { m.last[p] };
                m.link(i, p, v);
            }
            i += 1;
        }
        m.link(B - 3, B - 4, none);
        m.link(B - 2, B - 4, none);
        m.link(B - 1, (B - 6) / 2, none);
        // Positions, depths, roots.
        let mut i = 0;
        while i < B {
            if m.alive[i] && m.parent[i] == none {
                let mut x = i;
                let mut pos = 0;
                let mut d = 0;
                let mut down = true;
                loop {
                    if down {
                        m.open[x] = pos;
                        m.depth[x] = d;
                        m.root[x] = i as u8;
                    } else {
                        m.close[x] = pos;
                    }
                    pos += 1;
                    if down {
                        if m.first[x] != none {
                            x = m.first[x] as usize;
                            d += 1;
                        } else {
                            down = false;
                        }
                    } else if x == i {
                        break;
                    } else if m.next[x] != none {
                        x = m.next[x] as usize;
                        down = true;
                    } else {
                        x = m.parent[x] as usize;
                        d -= 1;
                    }
                }
            }
            i += 1;
        }
        m
    }

    /// Tells what the pre-state is.
    #[cfg(not(sym))]
    pub fn show<const B: usize>(&self) {
        if !verbose() {
            return;
        }
        println!("pre-state (slot: parent / children):");
        for i in 0..B {
            if !self.alive[i] {
                println!("  {}: removed", i);
                continue;
            }
            let mut c = Vec::new();
            let mut k = self.first[i];
            while k != Self::NONE {
                c.push(k.to_string());
                k = self.next[k as usize];
            }
            let p = self.parent[i];
            println!("  {}: {} / {}", i, if p == Self::NONE { "root".to_string() } else { p.to_string() }, c.join(" "));
        }
    }

    #[inline(always)]
    fn live(&self, x: u8) -> bool {
        x == Self::NONE || ((x as usize) < N && self.alive[x as usize])
    }

    /// The links describe a forest, and the positions, depths and roots witness it.
    #[inline(always)]
    pub fn is_ok<const B: usize>(&self) -> bool {
        let nn = Self::NONE;
        let mut ok = true;
        let mut i = 0;
        while i < B {
            let ii = i as u8;
            let (p, v, n, f, l) = (self.parent[i], self.prev[i], self.next[i], self.first[i], self.last[i]);
            let dead = (p == nn)
                & (v == nn)
                & (n == nn)
                & (f == nn)
                & (l == nn)
                & (self.open[i] == 0)
                & (self.close[i] == 0)
                & (self.depth[i] == 0)
                & (self.root[i] == nn);
            let links = self.live(p) & self.live(v) & self.live(n) & self.live(f) & self.live(l);
            let toplevel = (v == nn) & (n == nn) & (self.open[i] == 0) & (self.depth[i] == 0) & (self.root[i] == ii);
            let inner = (self.open[i] > at(&self.open, p))
                & (self.close[i] < at(&self.close, p))
                & (self.depth[i] == at(&self.depth, p).wrapping_add(1))
                & (self.root[i] == at(&self.root, p))
                & ((v == nn) == (at(&self.first, p) == ii))
                & ((n == nn) == (at(&self.last, p) == ii))
                & (if v == nn {
                    self.open[i] == at(&self.open, p).wrapping_add(1)
                } else {
                    (at(&self.next, v) == ii) & (at(&self.parent, v) == p) & (self.open[i] == at(&self.close, v).wrapping_add(1))
                })
                & (if n == nn {
                    at(&self.close, p) == self.close[i].wrapping_add(1)
                } else {
                    (at(&self.prev, n) == ii) & (at(&self.parent, n) == p)
                });
            let children = if f == nn {
                (l == nn) & (self.close[i] == self.open[i].wrapping_add(1))
            } else {
                (l != nn)
                    & (at(&self.parent, f) == ii)
                    & (at(&self.prev, f) == nn)
                    & (at(&self.parent, l) == ii)
                    & (at(&self.next, l) == nn)
            };
            let live = links & (if p == nn { toplevel } else { inner }) & children;
            ok &= if self.alive[i] { live } else { dead };
            i += 1;
        }
        ok
    }

    #[cfg(rawbuild)]
    #[inline(always)]
    fn o(x: u8) -> Option<usize> {
        if x == Self::NONE {
            None
        } else {
            Some(x as usize)
        }
    }

    /// The forest; the data of the node in slot `i` is `data[i]`.
    #[cfg(rawbuild)]
    #[inline(never)]
    pub fn build<const B: usize, T: Num>(&self) -> (Forest<VId, T>, [VId; N]) {
        let mut f = Forest::new();
        let mut i = 0;
        while i < B {
            let pc = self.prev_cyclic(i);
            f.verif_push_raw(
                if self.alive[i] { Some(T::of(self.data[i])) } else { None },
                [Self::o(self.parent[i]), Self::o(pc), Self::o(self.next[i]), Self::o(self.first[i])],
            );
            i += 1;
        }
        let z = F::verif_id(0).unwrap();
        let mut ids = [z; N];
        let mut i = 0;
        while i < B {
            ids[i] = F::verif_id(i).unwrap();
            i += 1;
        }
        (f, ids)
    }

    /// The forest, built through the public operations only.
    #[cfg(not(rawbuild))]
    #[inline(never)]
    pub fn build<const B: usize, T: Num>(&self) -> (Forest<VId, T>, [VId; N]) {
        let mut f = Forest::new();
        let z = f.create_root(T::of(self.data[0]));
        let mut ids = [z; N];
        let mut i = 1;
        while i < B {
            ids[i] = f.create_root(T::of(self.data[i]));
            i += 1;
        }
        let mut pos = 1;
        while pos < 2 * B {
            let mut i = 0;
            while i < B {
                if self.alive[i] && self.parent[i] != Self::NONE && self.open[i] as usize == pos {
                    let _ = f.insert(ids[i], InsertAs::LastChildOf(ids[self.parent[i] as usize]));
                }
                i += 1;
            }
            pos += 1;
        }
        let mut i = 0;
        while i < B {
            if !self.alive[i] {
                f.remove(ids[i]);
            }
            i += 1;
        }
        // Whether these operations do what they should is not the question here.
        let mut ok = true;
        let mut i = 0;
        while i < B {
            ok &= self.matches(&f, &ids, i);
            i += 1;
        }
        assume(ok);
        (f, ids)
    }

    #[inline(always)]
    pub fn prev_cyclic(&self, i: usize) -> u8 {
        if !self.alive[i] {
            Self::NONE
        } else if self.prev[i] != Self::NONE {
            self.prev[i]
        } else if self.parent[i] == Self::NONE {
            i as u8
        } else {
            at(&self.last, self.parent[i])
        }
    }

    /// `x` is in the subtree of `r` (in the state that was read).
    #[inline(always)]
    pub fn in_sub(&self, r: usize, x: usize) -> bool {
        self.alive[x] & (self.root[x] == self.root[r]) & (self.open[x] >= self.open[r]) & (self.close[x] <= self.close[r])
    }

    /// `x` is in the subtree of `r` (according to the links).
    #[inline(always)]
    pub fn below(&self, r: usize, x: usize) -> bool {
        let mut p = x as u8;
        let mut res = false;
        let mut i = 0;
        while i < N {
            res |= p == r as u8;
            p = at(&self.parent, p);
            i += 1;
        }
        res & self.alive[x]
    }

    /// Number of nodes in the subtree.
    #[inline(always)]
    pub fn size(&self, x: usize) -> usize {
        ((self.close[x] - self.open[x]) as usize + 1) / 2
    }

    /// Makes the subtree a separate tree (links only).
    #[inline(always)]
    pub fn unlink(&mut self, x: usize) {
        let p = self.parent[x];
        if p == Self::NONE {
            return;
        }
        let (v, n) = (self.prev[x], self.next[x]);
        if v != Self::NONE {
            self.next[v as usize] = n
        } else {
            self.first[p as usize] = n
        }
        if n != Self::NONE {
            self.prev[n as usize] = v
        } else {
            self.last[p as usize] = v
        }
        self.parent[x] = Self::NONE;
        self.prev[x] = Self::NONE;
        self.next[x] = Self::NONE;
    }

    /// Puts the detached `x` under `p` just after `v` (`NONE`: as the first child) (links only).
    #[inline(always)]
    pub fn link(&mut self, x: usize, p: usize, v: u8) {
        let n = if v == Self::NONE { self.first[p] } else { self.next[v as usize] };
        self.parent[x] = p as u8;
        self.prev[x] = v;
        self.next[x] = n;
        if v != Self::NONE {
            self.next[v as usize] = x as u8
        } else {
            self.first[p] = x as u8
        }
        if n != Self::NONE {
            self.prev[n as usize] = x as u8
        } else {
            self.last[p] = x as u8
        }
    }

    /// Moves the subtree `x` to the place `k` of the anchor `a`.
    ///
    /// `k`: 0 first child, 1 last child, 2 previous sibling, 3 next sibling.
    #[inline(always)]
    pub fn insert(&mut self, x: usize, k: u8, a: usize, fresh: bool) -> Ins {
        if k >= 2 && x == a {
            return if self.parent[a] == Self::NONE { Ins::UnorderableOrNoParent } else { Ins::Unorderable };
        }
        if k >= 2 && self.parent[a] == Self::NONE {
            return Ins::NoParent;
        }
        let p = if k < 2 { a } else { self.parent[a] as usize };
        if if fresh { self.in_sub(x, p) } else { self.below(x, p) } {
            return Ins::Loop;
        }
        self.unlink(x);
        let v = match k {
            0 => Self::NONE,
            1 => self.last[p],
            2 => self.prev[a],
            _ => a as u8,
        };
        self.link(x, p, v);
        Ins::Done
    }

    /// Puts the new node `x` at the place `k` of the anchor `a`. The place must exist.
    #[inline(always)]
    pub fn create(&mut self, x: usize, k: u8, a: usize, data: u8) {
        self.alive[x] = true;
        self.data[x] = data;
        let p = if k < 2 { a } else { self.parent[a] as usize };
        let v = match k {
            0 => Self::NONE,
            1 => self.last[p],
            2 => self.prev[a],
            _ => a as u8,
        };
        self.link(x, p, v);
    }

    /// Takes the single node out; its children take its place. Returns whether it is possible.
    #[inline(always)]
    pub fn splice_out(&mut self, x: usize) -> bool {
        let nn = Self::NONE;
        let (p, v, n, f, l) = (self.parent[x], self.prev[x], self.next[x], self.first[x], self.last[x]);
        if f == nn {
            self.unlink(x);
            return true;
        }
        if p == nn && f != l {
            return false;
        }
        let mut i = 0;
        while i < N {
            if self.alive[i] && self.parent[i] == x as u8 {
                self.parent[i] = p;
            }
            i += 1;
        }
        self.prev[f as usize] = v;
        self.next[l as usize] = n;
        if p != nn {
            if v != nn {
                self.next[v as usize] = f
            } else {
                self.first[p as usize] = f
            }
            if n != nn {
                self.prev[n as usize] = l
            } else {
                self.last[p as usize] = l
            }
        }
        self.parent[x] = nn;
        self.prev[x] = nn;
        self.next[x] = nn;
        self.first[x] = nn;
        self.last[x] = nn;
        true
    }

    /// Removes the subtree.
    #[inline(always)]
    pub fn remove(&mut self, x: usize, fresh: bool) {
        let mut dead = [false; N];
        let mut i = 0;
        while i < N {
            dead[i] = if fresh { self.in_sub(x, i) } else { self.below(x, i) };
            i += 1;
        }
        self.unlink(x);
        let mut i = 0;
        while i < N {
            if dead[i] {
                self.alive[i] = false;
            }
            i += 1;
        }
    }

    /// Slot `j` of the forest is as this model says, through the public accessors.
    #[inline(always)]
    pub fn matches<T: Num>(&self, f: &Forest<VId, T>, ids: &[VId; N], j: usize) -> bool {
        match f.node(ids[j]) {
            None => !self.alive[j],
            Some(n) => {
                self.alive[j]
                    & (n.parent_id() == id(ids, self.parent[j]))
                    & (n.prev_sibling_id() == id(ids, self.prev[j]))
                    & (n.next_sibling_id() == id(ids, self.next[j]))
                    & (n.first_child_id() == id(ids, self.first[j]))
                    & (n.last_child_id() == id(ids, self.last[j]))
                    & (n.data().num() == self.data[j])
            }
        }
    }

    /// Slot `j` of the forest is as this model says, through the public accessors.
    #[inline(always)]
    pub fn check(&self, f: &F, ids: &[VId; N], j: usize) {
        match f.node(ids[j]) {
            None => {
                chk(!self.alive[j], "a live node is reported as dead");
                chk(f.data(ids[j]).is_none(), "a dead node has data");
            }
            Some(n) => {
                chk(self.alive[j], "a dead node is reported as alive");
                if self.alive[j] {
                    chk(n.id() == ids[j], "id");
                    chk(n.parent_id() == id(ids, self.parent[j]), "parent");
                    chk(n.prev_sibling_id() == id(ids, self.prev[j]), "previous sibling");
                    chk(n.next_sibling_id() == id(ids, self.next[j]), "next sibling");
                    chk(n.first_child_id() == id(ids, self.first[j]), "first child");
                    chk(n.last_child_id() == id(ids, self.last[j]), "last child");
                    chk(*n.data() == self.data[j], "data");
                    chk(f.data(ids[j]).copied() == Some(self.data[j]), "data by id");
                }
            }
        }
    }
}

#[inline(always)]
pub fn id<const N: usize>(ids: &[VId; N], x: u8) -> Option<VId> {
    if x as usize >= N {
        None
    } else {
        Some(ids[x as usize])
    }
}

/// Slot of the ID; `N` if it is none of them.
#[inline(always)]
pub fn idx<const N: usize>(ids: &[VId; N], x: VId) -> usize {
    let mut r = N;
    let mut i = 0;
    while i < N {
        if ids[i] == x {
            r = i;
        }
        i += 1;
    }
    r
}

/// The ID is none of the first `b` ones.
#[inline(always)]
pub fn is_new<const N: usize>(ids: &[VId; N], b: usize, x: VId) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < b {
        r &= ids[i] != x;
        i += 1;
    }
    r
}

#[inline(always)]
pub fn dest(k: u8, a: VId) -> InsertAs<VId> {
    match k {
        0 => InsertAs::FirstChildOf(a),
        1 => InsertAs::LastChildOf(a),
        2 => InsertAs::PreviousSiblingOf(a),
        _ => InsertAs::NextSiblingOf(a),
    }
}

#[inline(always)]
pub fn adopt(k: u8) -> AdoptAs {
    match k {
        0 => AdoptAs::FirstChild,
        1 => AdoptAs::LastChild,
        2 => AdoptAs::PreviousSibling,
        _ => AdoptAs::NextSibling,
    }
}

/// Reads a pre-state: the model, the forest, the node IDs.
#[inline(always)]
pub fn start<const N: usize, const B: usize, const C: u8>(r: &mut Rd) -> (M<N>, F, [VId; N]) {
    start_as::<N, B, C, u8>(r)
}

/// Reads a pre-state with other data.
#[inline(always)]
pub fn start_as<const N: usize, const B: usize, const C: u8, T: Num>(r: &mut Rd) -> (M<N>, Forest<VId, T>, [VId; N]) {
    let m = M::<N>::read::<B, C>(r);
    #[cfg(not(sym))]
    m.show::<B>();
    let (f, ids) = m.build::<B, T>();
    (m, f, ids)
}

/// A live node.
#[inline(always)]
pub fn live<const N: usize>(r: &mut Rd, m: &M<N>, b: usize) -> usize {
    let x = r.below(b);
    assume(m.alive[x]);
    x
}
