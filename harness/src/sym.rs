//! Symbolic inputs. Under Kani every value is a solver variable; natively the values of a
//! counterexample are read back, so that the same harness body replays against the real code.

#[cfg(kani)]
mod imp {
    pub fn any<T: kani::Arbitrary>() -> T {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub trait Sym: kani::Arbitrary {}
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    thread_local!(static VALUES: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) });

    /// FILE holds whitespace separated decimal bytes
    pub fn load(file: &str) {
        let text = std::fs::read_to_string(file).expect("replay file");
        let bytes = text
            .lines()
            .filter(|l| !l.starts_with('#'))
            .flat_map(|l| l.split_whitespace())
            .map(|w| w.parse().expect("byte"))
            .collect();
        VALUES.with(|v| *v.borrow_mut() = (bytes, 0));
    }
    pub trait Sym: Sized {
        fn get() -> Self;
    }
    fn take(n: usize) -> Vec<u8> {
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            let p = v.1;
            v.1 += n;
            if v.1 > v.0.len() {
                eprintln!("replay: out of values");
                std::process::exit(3);
            }
            v.0[p..p + n].to_vec()
        })
    }
    macro_rules! int {
        ($($t:ty)*) => {$(impl Sym for $t {
            fn get() -> Self { <$t>::from_le_bytes(take(size_of::<$t>()).try_into().unwrap()) }
        })*};
    }
    int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    impl Sym for bool {
        fn get() -> Self {
            take(1)[0] != 0
        }
    }
    impl<T: Sym, const N: usize> Sym for [T; N] {
        fn get() -> Self {
            std::array::from_fn(|_| T::get())
        }
    }
    pub fn any<T: Sym>() -> T {
        T::get()
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("replay: assumption not met");
            std::process::exit(3);
        }
    }
}
pub use imp::*;

/// A reachability witness: the solver must find an execution that reaches it.
#[cfg(kani)]
macro_rules! cover {
    ($c:expr, $m:literal) => {
        kani::cover!($c, $m)
    };
}
#[cfg(not(kani))]
macro_rules! cover {
    ($c:expr, $m:literal) => {
        let _ = $c;
    };
}

/// `h_proof!(pNN_name, UNWIND, { body })`: a harness.
macro_rules! h_proof {
    ($name:ident, $unwind:tt, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::stub(std::alloc::dealloc, crate::sym::no_dealloc),
            kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, crate::sym::keep_error))]
        pub fn $name() $body
    };
}

/// Unwraps without dragging the formatting machinery of `Result::unwrap` into the formula.
pub fn ok<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => {
            std::mem::forget(e);
            panic!("unexpected error")
        }
    }
}
pub fn drop_err<T, E>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
/// One arm of a concrete dispatch over a symbolic value.
pub fn unreachable_by_assumption() -> ! {
    assume(false);
    loop {}
}

/// Stand-in for `std::alloc::dealloc` under the solver: memory is never reused, so that the drop
/// of a buffer costs nothing in the formula.
pub unsafe fn no_dealloc(_: *mut u8, _: std::alloc::Layout) {}

/// Stand-in for the drop of an error with a payload under the solver (nothing observes it): the
/// call through its function pointer would otherwise be taken to lead to any function of that type.
#[cfg(kani)]
pub fn keep_error(_: &mut core::io::CustomOwner) {}

/// Stand-in for the loop of the default `Read::read_exact` under the solver, with room for at most
/// two reads (of which an end of file may be the second).
#[cfg(kani)]
pub fn read_exact<R: std::io::Read + ?Sized>(this: &mut R, buf: &mut [u8]) -> std::io::Result<()> {
    let wanted = buf.len();
    let n = this.read(buf)?;
    if n == wanted {
        return Ok(());
    }
    if n > 0 {
        let m = this.read(&mut buf[n..])?;
        if m == wanted - n {
            return Ok(());
        }
        assert!(m == 0, "more than two reads");
    }
    Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))
}

/// Stand-ins for the reference counts of `Rc` under the solver: nothing is ever freed, so that no
/// count needs to be written through a symbolic pointer.
#[cfg(kani)]
pub trait Uncounted {
    fn inc_strong(&self) {}
    fn dec_strong(&self) {}
    fn strong(&self) -> usize {
        2
    }
}
#[cfg(kani)]
impl<T: ?Sized> Uncounted for T {}

/// The checksum that harnesses expect: natively CRC-32C as ext4 defines it, written bit by bit;
/// under the solver a mixing function that is as sensitive to seed, order and length but cheap,
/// which also stands in for `ext4_crc32c` in the harnesses that use it. (That `ext4_crc32c` is
/// CRC-32C is a property of its own.)
#[cfg(kani)]
pub fn crc<B: AsRef<[u8]>>(seed: u32, bytes: B) -> u32 {
    let bytes = bytes.as_ref();
    let mut h = seed;
    let mut i = 0;
    while i < bytes.len() {
        let x = h ^ bytes[i] as u32;
        h = (x << 7 | x >> 25) ^ 0x5bd1_e995;
        i += 1;
    }
    h
}
#[cfg(not(kani))]
pub fn crc<B: AsRef<[u8]>>(seed: u32, bytes: B) -> u32 {
    crc_bitwise(seed, bytes.as_ref())
}
/// The reflected Castagnoli CRC, without the final inversion.
pub fn crc_bitwise(seed: u32, bytes: &[u8]) -> u32 {
    let mut h = seed;
    for b in bytes {
        h ^= *b as u32;
        for _ in 0..8 {
            h = h >> 1 ^ (0x82f6_3b78 & (h & 1).wrapping_neg());
        }
    }
    h
}
/// Little-endian field of `n` bytes
pub fn le(b: &[u8], at: usize, n: usize) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < n {
        v |= (b[at + i] as u64) << (8 * i);
        i += 1;
    }
    v
}
