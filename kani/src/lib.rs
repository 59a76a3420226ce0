//! Contract harnesses for Kani: `kani::assume(requires)`, call the real function, assert the ensures, over the whole
//! domain of the arguments.  Nothing here loops over data (the few loops run over the bits of one word and are unwound
//! completely), so a pass covers every input.  `oob_*` harnesses take arguments outside the precondition: the call must
//! not return (its cover property must be unreachable).
#![allow(non_snake_case, unused_imports)]
#[cfg(kani)] pub mod laws;
#[cfg(kani)] pub mod blk;
#[cfg(kani)] pub mod prim;
#[cfg(kani)] pub mod bw;
#[cfg(kani)] pub mod io;

/// the bits of a word, as the contracts name them
#[cfg(kani)]
pub trait W: Copy + PartialEq + kani::Arbitrary {
    const NB: usize;
    fn b(self, i: usize) -> bool;
    fn pop(self) -> u32;
    fn u(self) -> u64;
}
#[cfg(kani)]
macro_rules! w { ($($t:ident)*) => { $( impl W for $t {
    const NB: usize = 8 * std::mem::size_of::<$t>();
    fn b(self, i: usize) -> bool { i < Self::NB && (self >> (i as u32)) & 1 == 1 }
    fn pop(self) -> u32 { <$t>::count_ones(self) }
    fn u(self) -> u64 { self as u64 }
} )* } }
#[cfg(kani)]
w!(u8 u16 u32 u64 usize);
#[cfg(kani)]
pub fn below(n: usize) -> usize { let i: usize = kani::any(); kani::assume(i < n); i }
