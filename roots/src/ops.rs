//! One root per storage operation of a record.
#![allow(unused_macros)]
macro_rules! item {
    ($c:expr, $t:ty, $save:ident, $load:ident, $may:ident, $has:ident, $rem:ident) => {
        pub fn $save(s: &mut dyn Storage, v: &$t) -> StdResult<()> {
            $c.save(s, v)
        }
        pub fn $load(s: &dyn Storage) -> StdResult<$t> {
            $c.load(s)
        }
        pub fn $may(s: &dyn Storage) -> StdResult<Option<$t>> {
            $c.may_load(s)
        }
        pub fn $has(s: &dyn Storage) -> bool {
            $c.exists(s)
        }
        pub fn $rem(s: &mut dyn Storage) {
            $c.remove(s)
        }
    };
}
macro_rules! map {
    ($c:expr, $t:ty, ($($a:ident: $at:ty),*) => $e:expr, $save:ident, $load:ident, $may:ident, $has:ident, $rem:ident) => {
        pub fn $save(s: &mut dyn Storage, $($a: $at),*, v: &$t) -> StdResult<()> {
            $c.save(s, $e, v)
        }
        pub fn $load(s: &dyn Storage, $($a: $at),*) -> StdResult<$t> {
            $c.load(s, $e)
        }
        pub fn $may(s: &dyn Storage, $($a: $at),*) -> StdResult<Option<$t>> {
            $c.may_load(s, $e)
        }
        pub fn $has(s: &dyn Storage, $($a: $at),*) -> bool {
            $c.has(s, $e)
        }
        pub fn $rem(s: &mut dyn Storage, $($a: $at),*) {
            $c.remove(s, $e)
        }
    };
}
