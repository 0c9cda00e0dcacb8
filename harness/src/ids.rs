//! Node IDs: P10, P11.

use crate::env::*;
use crate::model::*;
use core::hash::{Hash, Hasher};
use treena::dynamic::*;

/// IDs of new nodes are new, also after removals; dead nodes stay dead.
/// `HOW`: 0 create_root, 1 create_insert, 2 clone, 3 create_insert by proxy.
pub fn reuse<const N: usize, const B: usize, const HOW: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, B, ANY>(&mut r);
    let x = live(&mut r, &m, B);
    let j = r.below(B);
    let again = r.bit();
    let gone = m.in_sub(x, j);
    if again {
        f.remove(ids[x]);
    }
    let y = live(&mut r, &m, B);
    if again {
        assume(!m.in_sub(x, y));
    }
    let mut at = [ids[0]; 2];
    let mut i = 0;
    while i < 2 {
        at[i] = match HOW {
            0 => f.create_root(50),
            1 => f.create_insert(50, InsertAs::FirstChildOf(ids[y])),
            2 => f.clone_local_tree(ids[y]),
            _ => match f.node_mut(ids[y]) {
                Some(mut n) => n.create(50, AdoptAs::LastChild),
                None => return chk(false, "a live node has no proxy"),
            },
        };
        if HOW == 2 {
            break;
        }
        i += 1;
    }
    chk(at[0] != ids[j] && (HOW == 2 || at[1] != ids[j]), "an ID is used again");
    chk(HOW == 2 || at[0] != at[1], "two new nodes have the same ID");
    chk(f.node(at[0]).is_some(), "a new node is not alive");
    let alive = m.alive[j] && !(again && gone);
    chk(f.node(ids[j]).is_some() == alive, "creation of nodes changes whether another node is alive");
    chk(f.data(ids[j]).copied() == if alive { Some(m.data[j]) } else { None }, "creation of nodes changes other data");
    cover(again && m.size(x) > 1, "after a removal");
}

/// The same in a larger forest: a whole subtree is removed, and a few nodes are created.
/// `HOW`: 0 remove, 1 remove_hooked, 2 remove_hooked_panic_safe.
pub fn reuse_many<const N: usize, const B: usize, const C: u8, const HOW: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start::<N, B, C>(&mut r);
    let x = live(&mut r, &m, B);
    let j = r.below(B);
    match HOW {
        0 => f.remove(ids[x]),
        1 => f.remove_hooked(ids[x], drop),
        _ => f.remove_hooked_panic_safe(ids[x], drop),
    }
    let a = f.create_root(50);
    let b = f.create_insert(51, InsertAs::LastChildOf(a));
    chk(a != ids[j] && b != ids[j], "an ID is used again");
    chk(a != b, "two new nodes have the same ID");
    chk(f.data(a).copied() == Some(50) && f.data(b).copied() == Some(51), "data of the new nodes");
    let alive = m.alive[j] && !m.in_sub(x, j);
    chk(f.node(ids[j]).is_some() == alive, "creation of nodes changes whether another node is alive");
    chk(f.data(ids[j]).copied() == if alive { Some(m.data[j]) } else { None }, "creation of nodes changes other data");
}

/// The ID space of `NodeIdU8`: nodes can be created until it is exhausted, and then creation
/// panics and nothing is lost. `HOW`: 0 create_root, 1 create_insert, 2 clone.
pub fn overflow<const HOW: u8>() {
    let mut r = Rd::new();
    let mut f = F::new();
    let first = f.create_root(0);
    let mut ids = [first; 255];
    let mut i = 1;
    while i < 255 {
        ids[i] = match HOW {
            0 => f.create_root(i as u8),
            _ => f.create_insert(i as u8, InsertAs::LastChildOf(first)),
        };
        i += 1;
    }
    let j = r.below(255);
    let k = r.below(255);
    chk(j == k || ids[j] != ids[k], "two nodes have the same ID");
    chk(f.data(ids[j]).copied() == Some(j as u8), "data of a node");
    let p = panics(|| {
        let _ = match HOW {
            0 => f.create_root(77),
            1 => f.create_insert(77, InsertAs::LastChildOf(first)),
            _ => f.clone_local_tree(ids[7]),
        };
    });
    chk(p, "more nodes than there are IDs");
    #[cfg(check = "P27")]
    chk(panic_tag() == 1, "a panic for too many nodes says something else");
    chk(f.data(ids[j]).copied() == Some(j as u8), "data of a node after the overflow");
    match f.node(ids[j]) {
        None => chk(false, "a node is lost in the overflow"),
        Some(n) => {
            if HOW > 0 && j > 0 {
                chk(n.parent_id() == Some(first), "parent after the overflow");
                chk(n.next_sibling_id() == if j < 254 { Some(ids[j + 1]) } else { None }, "next sibling after the overflow");
            } else if HOW == 0 {
                chk(n.parent_id().is_none(), "parent after the overflow");
            }
        }
    }
}

struct Fnv(u64);
impl Hasher for Fnv {
    #[inline(always)]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline(always)]
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.0 = (self.0 << 8) | b[i] as u64;
            i += 1;
        }
    }
}
#[inline(always)]
fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = Fnv(0);
    v.hash(&mut h);
    h.finish()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Named {
    pub tag: NodeIdU16,
}
treena::impl_dynamic_node_id!(Named, NodeIdU16, tag);

/// Equality, order and hash of the IDs of two nodes, and conversion, for one ID type.
#[cfg(treena_verif)]
macro_rules! id_type {
    ($name:ident, $ty:ty, $max:expr) => {
        pub fn $name() {
            use core::cmp::Ordering::*;
            let mut r = Rd::new();
            let (x, y, z) = (r.u64() as usize, r.u64() as usize, r.u64() as usize);
            let max: u64 = $max;
            let get = |v: usize| Forest::<$ty, ()>::verif_id(v);
            let (a, b, c) = (get(x), get(y), get(z));
            chk(a.is_some() == ((x as u64) < max), "the IDs there are");
            if let (Some(a), Some(b), Some(c)) = (a, b, c) {
                chk(Forest::<$ty, ()>::verif_index(a) == x, "index of an ID");
                chk((a == b) == (x == y), "equality");
                chk((a != b) == (x != y), "inequality");
                chk((a.cmp(&b) == Equal) == (a == b), "equality by order");
                chk(a.cmp(&b) == b.cmp(&a).reverse(), "order is antisymmetric");
                chk(!(a < b && b < c) || a < c, "order is transitive");
                chk(a.partial_cmp(&b) == Some(a.cmp(&b)), "partial order");
                chk((a < b) == (a.cmp(&b) == Less) && (a > b) == (a.cmp(&b) == Greater), "operators");
                chk(a != b || hash(&a) == hash(&b), "hash");
                chk(a.to_internal() == a && <$ty>::from_internal(a) == a, "conversion");
                cover(x > y, "different IDs");
            }
            cover(a.is_none(), "a number that is not an ID");
        }
    };
}
#[cfg(not(treena_verif))]
macro_rules! id_type {
    ($name:ident, $ty:ty, $max:expr) => {
        pub fn $name() {}
    };
}
id_type!(id_u8, NodeIdU8, 255);
id_type!(id_u16, NodeIdU16, 65535);
id_type!(id_u32, NodeIdU32, 0xffff_ffff);
id_type!(id_u64, NodeIdU64, u64::MAX);
id_type!(id_usize, NodeIdUsize, u64::MAX);

/// IDs of the nodes of one forest, for ID type `I`: distinct, and each leads to its node.
#[inline(always)]
fn distinct<I: NodeId, const N: usize>() {
    let mut r = Rd::new();
    let mut f = Forest::<I, u8>::new();
    let z = f.create_root(0);
    let mut ids = [z; N];
    let mut i = 1;
    while i < N {
        ids[i] = f.create_insert(i as u8, InsertAs::FirstChildOf(z));
        i += 1;
    }
    let (j, k) = (r.below(N), r.below(N));
    chk((ids[j] == ids[k]) == (j == k), "IDs are equal exactly if the nodes are");
    chk(ids[j].to_internal() == ids[k].to_internal() || j != k, "internal IDs");
    chk(I::from_internal(ids[j].to_internal()) == ids[j], "conversion to the internal ID and back");
    chk(f.data(ids[j]).copied() == Some(j as u8), "the ID leads to its node");
    match f.node(ids[j]) {
        None => chk(false, "a live node is not found"),
        Some(n) => {
            chk(n.id() == ids[j], "ID of the node");
            if j > 0 {
                chk(n.parent_id() == Some(z), "ID of the parent");
                chk(n.next_sibling_id() == if j > 1 { Some(ids[j - 1]) } else { None }, "ID of the next sibling");
            }
        }
    }
}
pub fn distinct_u8() {
    distinct::<NodeIdU8, 12>()
}
pub fn distinct_u16() {
    distinct::<NodeIdU16, 12>()
}
pub fn distinct_u32() {
    distinct::<NodeIdU32, 12>()
}
pub fn distinct_u64() {
    distinct::<NodeIdU64, 12>()
}
pub fn distinct_usize() {
    distinct::<NodeIdUsize, 12>()
}
pub fn distinct_custom() {
    distinct::<VId, 12>()
}
pub fn distinct_named() {
    distinct::<Named, 300>()
}
