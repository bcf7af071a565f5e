// Blocks of a file. Under the solver the file is a stand-in for its seek, read and metadata calls;
// natively it is a sparse file.
use super::*;
use crate::sym::*;
use std::cell::Cell;

#[cfg(kani)]
mod stand_in {
    use super::*;
    pub static mut SIZE: u64 = 0;
    pub static mut POS: u64 = 0;
    pub static mut MARK: (u64, u8) = (0, 0);

    pub fn seek(_: &mut File, pos: SeekFrom) -> io::Result<u64> {
        unsafe {
            match pos {
                SeekFrom::Start(p) if p <= i64::MAX as u64 => POS = p,
                _ => return Err(io::Error::from(io::ErrorKind::InvalidInput)),
            }
            Ok(POS)
        }
    }
    pub fn read(_: &mut File, buf: &mut [u8]) -> io::Result<usize> {
        unsafe {
            if POS >= SIZE || SIZE - POS < buf.len() as u64 {
                return Ok(0);
            }
            for i in 0..buf.len() {
                buf[i] = if POS + i as u64 == MARK.0 { MARK.1 } else { 0 };
            }
            POS += buf.len() as u64;
            Ok(buf.len())
        }
    }
    pub fn metadata(_: &File) -> io::Result<std::fs::Metadata> {
        Ok(unsafe { std::mem::zeroed() })
    }
    pub fn size(_: &std::fs::Metadata) -> u64 {
        unsafe { SIZE }
    }
    pub fn file(size: u64, mark: (u64, u8)) -> File {
        unsafe {
            SIZE = size;
            POS = 0;
            MARK = mark;
            std::mem::transmute(3i32)
        }
    }
}
#[cfg(not(kani))]
mod stand_in {
    use super::*;
    use std::io::Write;
    pub fn file(size: u64, mark: (u64, u8)) -> File {
        let path = std::env::temp_dir().join(format!("md-verif-{}", std::process::id()));
        let mut f = File::options().read(true).write(true).create_new(true).open(&path).unwrap();
        std::fs::remove_file(&path).unwrap();
        f.set_len(size).unwrap();
        if mark.0 < size {
            f.seek(SeekFrom::Start(mark.0)).unwrap();
            f.write_all(&[mark.1]).unwrap();
        }
        f
    }
}

/// Files of any size below 2^40, any block; any one byte of the file is not zero.
fn block<const L: usize>(block_size: u32) {
    let size: u64 = any();
    assume(size < 1 << 40);
    let mark: (u64, u8) = (any(), any());
    let n: u64 = any();
    let b = block_size as u64;
    let mut d = FileBlockDevice::from_file(stand_in::file(size, mark), BlockSize(block_size));
    match drop_err(d.block_count()) {
        Some(c) => assert!(c.0 == size / b, "number of blocks"),
        None => panic!("no number of blocks"),
    }
    let mut buf = [0xaau8; L];
    match drop_err(d.read_block(BlockNumber(n), &mut buf)) {
        Some(k) => {
            assert!(k as u64 == b, "the length of a block");
            assert!(L as u64 >= b && n < size / b, "a block out of nothing");
            for i in 0..L {
                let expected = if i as u64 >= b {
                    0xaa
                } else if n * b + i as u64 == mark.0 {
                    mark.1
                } else {
                    0
                };
                assert!(buf[i] == expected, "another block, or more than one");
            }
            cover!(n > 5 && n == size / b - 1, "the last block");
        }
        None => assert!((L as u64) < b || n >= size / b, "a block is refused"),
    }
    std::mem::forget(d);
}
macro_rules! h_file {
    ($name:ident, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(20), kani::stub(std::alloc::dealloc, no_dealloc),
            kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error),
            kani::stub(<std::fs::File as std::io::Seek>::seek, stand_in::seek),
            kani::stub(<std::fs::File as std::io::Read>::read, stand_in::read),
            kani::stub(std::fs::File::metadata, stand_in::metadata),
            kani::stub(<std::fs::Metadata as std::os::unix::fs::MetadataExt>::size, stand_in::size))]
        pub fn $name() $body
    };
}
h_file!(p15_file_8, { block::<8>(8) });
h_file!(p15_file_longer, { block::<11>(8) });
h_file!(p15_file_short, { block::<7>(8) });
h_file!(p15_file_1, { block::<1>(1) });
