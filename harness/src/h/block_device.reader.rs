// The stream view of a block device.
use super::*;
use crate::sym::*;
use std::cell::Cell;
use std::rc::Rc;

/// A device whose block n holds, at every byte, the tag that the harness gave to n; all others
/// hold another tag. It notes whether it was asked for a block that does not exist.
#[derive(Clone)]
struct Tagged {
    size: u32,
    count: u64,
    tags: Rc<Cell<[(u64, u8); 2]>>,
    fail: Rc<Cell<bool>>,
    bad: Rc<Cell<bool>>,
}
impl Tagged {
    fn new(size: u32, count: u64) -> Self {
        Self { size, count, tags: Rc::new(Cell::new([(0, 0); 2])), fail: Rc::new(Cell::new(false)), bad: Rc::new(Cell::new(false)) }
    }
}
impl BlockDevice for Tagged {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(self.size))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.count))
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        if self.fail.get() {
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        if buf.len() != self.size as usize || n.0 >= self.count {
            self.bad.set(true);
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        let [a, b] = self.tags.get();
        let t = if n.0 == a.0 { a.1 } else if n.0 == b.0 { b.1 } else { 0xee };
        for i in 0..self.size as usize {
            buf[i] = t.wrapping_add(i as u8);
        }
        Ok(buf.len())
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}

/// A device whose bytes can be numbered with 64 bits.
fn device(size: u32) -> Tagged {
    let count: u64 = any();
    assume(count <= u64::MAX / size as u64);
    Tagged::new(size, count)
}

/// One read of L bytes at position p, which must give some (if there are any) of the bytes there.
fn read_at<const L: usize>(r: &mut BlockDeviceReader<Tagged>, d: &Tagged, p: u64) -> u64 {
    let size = d.size as u64;
    let first = p / size;
    let tags: [u8; 2] = any();
    d.tags.set([(first, tags[0]), (first.wrapping_add(1), tags[1])]);
    let mut buf = [0xaau8; L];
    let n = match drop_err(r.read(&mut buf)) {
        Some(n) => n,
        None => panic!("a readable position cannot be read"),
    };
    assert!(n <= L, "more than fits");
    if first >= d.count {
        assert!(n == 0, "bytes beyond the end");
    } else {
        assert!(n > 0 || L == 0, "the end before the end");
        for i in 0..L {
            let at = (p % size) + i as u64;
            if i < n {
                let expected = tags[(at / size) as usize & 1].wrapping_add((at % size) as u8);
                assert!(at / size <= 1 && first + at / size < d.count, "bytes beyond the end");
                assert!(buf[i] == expected, "bytes of another place");
            } else {
                assert!(buf[i] == 0xaa, "the rest of the buffer is written");
            }
        }
    }
    assert!(!d.bad.get(), "a block that does not exist");
    n as u64
}

/// Any seek from position p; -> the new position
fn seek(r: &mut BlockDeviceReader<Tagged>, d: &Tagged, p: u64, kind: u8) -> u64 {
    let end = d.count as u128 * d.size as u128;
    let (pos, expected) = if kind == 0 {
        let to: u64 = any();
        (SeekFrom::Start(to), to as i128)
    } else {
        let by: i64 = any();
        if kind == 1 {
            (SeekFrom::Current(by), p as i128 + by as i128)
        } else {
            (SeekFrom::End(by), end as i128 + by as i128)
        }
    };
    let got = drop_err(r.seek(pos));
    let possible = expected >= 0 && expected <= u64::MAX as i128 && (kind != 2 || end <= u64::MAX as u128);
    match got {
        Some(q) => {
            assert!(possible, "a seek to nowhere");
            assert!(q as i128 == expected, "a seek to another place");
            q
        }
        None => {
            assert!(!possible, "a possible seek is refused");
            cover!(true, "a refused seek");
            p
        }
    }
}

fn session<const L: usize>(size: u32, kinds: [u8; 2]) {
    let d = device(size);
    let mut r = BlockDeviceReader::new(d.clone());
    let mut p = 0;
    p = seek(&mut r, &d, p, kinds[0]);
    p = p + read_at::<L>(&mut r, &d, p);
    p = seek(&mut r, &d, p, kinds[1]);
    let n = read_at::<L>(&mut r, &d, p);
    cover!(n == L as u64 && n > 0, "a whole read");
    cover!(n > 0 && n < L as u64, "a partial read");
    cover!(n == 0, "the end");
    std::mem::forget((r, d));
}
h_proof!(p14_start_start, 18, { session::<4>(4, [0, 0]) });
h_proof!(p14_start_current, 18, { session::<3>(8, [0, 1]) });
h_proof!(p14_start_end, 18, { session::<3>(4, [0, 2]) });
h_proof!(p14_end_current, 18, { session::<16>(16, [2, 1]) });

/// Two reads in a row from anywhere continue where the last one ended.
fn continued<const L: usize, const M: usize>(size: u32) {
    let d = device(size);
    let mut r = BlockDeviceReader::new(d.clone());
    let mut p = seek(&mut r, &d, 0, 0);
    let a = read_at::<L>(&mut r, &d, p);
    p = p + a;
    let b = read_at::<M>(&mut r, &d, p);
    p = p + b;
    let c = read_at::<L>(&mut r, &d, p);
    cover!(a > 0 && b > 0 && c > 0, "three reads");
    std::mem::forget((r, d));
}
h_proof!(p14_reads_small, 18, { continued::<1, 3>(2) });
h_proof!(p14_reads, 18, { continued::<3, 5>(4) });
h_proof!(p14_reads_1, 18, { continued::<2, 1>(1) });

// The end of a device beyond 64 bits cannot be sought.
h_proof!(p14_endless, 18, {
    let d = Tagged::new(4, any());
    let mut r = BlockDeviceReader::new(d.clone());
    let p = seek(&mut r, &d, 0, 2);
    if (p as u128) < d.count as u128 * 4 {
        read_at::<3>(&mut r, &d, p);
    }
    std::mem::forget((r, d));
});

// Clones have positions of their own; failures of the device leave the position alone.
h_proof!(p14_clone_and_failure, 18, {
    let d = device(4);
    let mut r = BlockDeviceReader::new(d.clone());
    let p = seek(&mut r, &d, 0, 0);
    let mut s = match drop_err(r.try_clone()) {
        Some(s) => s,
        None => panic!("no clone"),
    };
    let n = read_at::<3>(&mut r, &d, p);
    let q = p + n;
    d.fail.set(true);
    let mut buf = [0; 3];
    let failed = drop_err(r.read(&mut buf)).is_none();
    assert!(failed == (q / 4 < d.count), "a failure of the device is hidden");
    cover!(failed, "failed");
    d.fail.set(false);
    read_at::<3>(&mut s, &d, p);
    read_at::<3>(&mut r, &d, q);
    std::mem::forget((r, s, d));
});

// Sizes of real devices: the position within a sector of 512 bytes is any, the block number small or huge.
h_proof!(p14_sector, 520, {
    let d = device(512);
    let mut r = BlockDeviceReader::new(d.clone());
    let p = seek(&mut r, &d, 0, 0);
    let n = read_at::<4>(&mut r, &d, p);
    cover!(n == 4, "a whole read from a sector");
    let q = seek(&mut r, &d, p + n, 1);
    let n = read_at::<2>(&mut r, &d, q);
    cover!(n == 1, "the last byte of a sector");
    std::mem::forget((r, d));
});
fn long_session(size: u32) {
    let d = device(size);
    let mut r = BlockDeviceReader::new(d.clone());
    let mut p = 0;
    for _ in 0..3 {
        let kind: u8 = any();
        assume(kind < 3);
        p = seek(&mut r, &d, p, kind);
        p += read_at::<5>(&mut r, &d, p);
    }
    cover!(p > 5, "three seeks and reads");
    std::mem::forget((r, d));
}
h_proof!(p14t_session_8, 18, { long_session(8) });
h_proof!(p14t_session_16, 18, { long_session(16) });

/// Stand-in for `read` where whole blocks are read (which C14 decides in general): without the
/// copy to and from unaligned places, which would be symbolic to the solver.
#[cfg(kani)]
pub fn read_aligned<D: BlockDevice>(this: &mut BlockDeviceReader<D>, buf: &mut [u8]) -> io::Result<usize> {
    if this.block_pos >= this.device.block_count()? {
        return Ok(0);
    }
    assert!(this.byte_pos == 0 && buf.len() == usize::from(this.device.block_size()?), "an aligned read");
    let n = this.device.read_block(this.block_pos, buf)?;
    this.block_pos += BlockCount(1);
    Ok(n)
}
