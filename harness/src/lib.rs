pub mod env;
#[macro_use]
pub mod model;
pub mod big;
pub mod build;
pub mod bulk;
pub mod clone;
pub mod dead;
pub mod fault;
pub mod ids;
pub mod iter;
pub mod ops;
pub mod print;
pub mod seq;
use model::{ANY, CHAIN, COMB, FAN, HEAP, ORD};

macro_rules! harnesses {
    ($($prop:literal { $($name:ident = $e:expr;)* })*) => {
        $($(
            #[cfg(all(sym, check = $prop))]
            #[no_mangle]
            pub extern "C-unwind" fn $name() { $e }
        )*)*
        #[cfg(not(sym))]
        pub fn lookup(n: &str) -> Option<fn()> {
            match n {
                $($(#[cfg(check = $prop)] stringify!($name) => Some(|| $e),)*)*
                _ => None,
            }
        }
    };
}
include!("table.rs");
