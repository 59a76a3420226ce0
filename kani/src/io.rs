//! Block I/O: `write_block` puts exactly the bytes of the block in the order asked for, `read_block` takes exactly them, both
//! report a short stream as an error.
use crate::W;
use succinct::storage::BlockType;
use byteorder::{LittleEndian, BigEndian, ByteOrder};
use std::io::{Read, Write, Result};
/// a sink and a source of fixed size without std's buffers
pub struct Sink { d: [u8; 10], n: usize, cap: usize }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> { let mut k = 0; while k < b.len() && self.n < self.cap { self.d[self.n] = b[k]; self.n += 1; k += 1; } Ok(k) }
    fn write_all(&mut self, b: &[u8]) -> Result<()> { if self.write(b)? == b.len() { Ok(()) } else { Err(std::io::ErrorKind::WriteZero.into()) } }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
pub struct Src { d: [u8; 10], n: usize, cap: usize }
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> { let mut k = 0; while k < b.len() && self.n < self.cap { b[k] = self.d[self.n]; self.n += 1; k += 1; } Ok(k) }
    fn read_exact(&mut self, b: &mut [u8]) -> Result<()> { if self.read(b)? == b.len() { Ok(()) } else { Err(std::io::ErrorKind::UnexpectedEof.into()) } }
}
fn byte(v: u64, i: usize) -> u8 { (v >> (8 * i as u32)) as u8 }
macro_rules! io { ($m:ident, $t:ident) => { pub mod $m { use super::*;
    const N: usize = $t::NB / 8;
    fn write<T: ByteOrder>(big: bool) { let v: $t = kani::any(); let mut s = Sink { d: [0xAA; 10], n: 0, cap: 10 };
        assert!(v.write_block::<_, T>(&mut s).is_ok()); assert!(s.n == N); let i = crate::below(N); assert!(s.d[i] == byte(v.u(), if big { N - 1 - i } else { i })); }
    fn read<T: ByteOrder>(big: bool) { let d: [u8; 10] = kani::any(); let mut s = Src { d, n: 0, cap: 10 };
        let r = <$t as BlockType>::read_block::<_, T>(&mut s); assert!(s.n == N);
        match r { Ok(v) => { let i = crate::below(N); assert!(d[i] == byte(v.u(), if big { N - 1 - i } else { i })); } Err(_) => assert!(false) } }
    #[kani::proof] #[kani::unwind(11)] pub fn write_le() { write::<LittleEndian>(false) }
    #[kani::proof] #[kani::unwind(11)] pub fn write_be() { write::<BigEndian>(true) }
    #[kani::proof] #[kani::unwind(11)] pub fn read_le() { read::<LittleEndian>(false) }
    #[kani::proof] #[kani::unwind(11)] pub fn read_be() { read::<BigEndian>(true) }
    #[kani::proof] #[kani::unwind(11)] pub fn short() { let cap = crate::below(N); 
        let mut s = Src { d: kani::any(), n: 0, cap }; assert!(<$t as BlockType>::read_block::<_, LittleEndian>(&mut s).is_err());
        let mut s = Src { d: kani::any(), n: 0, cap }; assert!(<$t as BlockType>::read_block::<_, BigEndian>(&mut s).is_err());
        let v: $t = kani::any(); let mut s = Sink { d: [0; 10], n: 0, cap }; assert!(v.write_block::<_, LittleEndian>(&mut s).is_err());
        let mut s = Sink { d: [0; 10], n: 0, cap }; assert!(v.write_block::<_, BigEndian>(&mut s).is_err()); }
} } }
io!(i8_, u8); io!(i16_, u16); io!(i32_, u32); io!(i64_, u64); io!(isz, usize);
