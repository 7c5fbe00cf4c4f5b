#[macro_export] macro_rules! inst {
    ([$($m:ident : $t:ty),* $(,)?] $fs:tt) => { $( pub mod $m { use super::*; inst_fns!($t, $fs); } )* };
}
#[macro_export] macro_rules! inst_fns {
    ($t:ty, [$($f:ident)*]) => { $( pub fn $f() { super::$f::<$t>() } )* };
}
#[macro_export] macro_rules! blocks {
    ($fs:tt) => { inst! { [u8_: u8, u16_: u16, u32_: u32, u64_: u64, usize_: usize] $fs } };
}
#[macro_export] macro_rules! codes {
    ([$($m:ident : $c:expr, $n:expr, $name:ident);* $(;)?]) => { $( pub mod $m { use super::*; pub fn $name() { super::go(&$c, $n) } } )* };
}
