// Blocks of a device in memory.
use super::*;
use crate::sym::*;

/// All block numbers of a device of M bytes and blocks of B bytes, with a buffer of L bytes.
fn block<const M: usize, const L: usize>(size: u32) {
    let mem: [u8; M] = any();
    let n: u64 = any();
    let mut d = InMemoryBlockDevice::new(mem, BlockSize(size));
    let count = (M / size as usize) as u64;
    match drop_err(d.block_count()) {
        Some(c) => assert!(c.0 == count, "number of blocks"),
        None => panic!("no number of blocks"),
    }
    let fill: u8 = any();
    let mut buf = [fill; L];
    match drop_err(d.read_block(BlockNumber(n), &mut buf)) {
        Some(k) => {
            assert!(k == size as usize, "the length of a block");
            assert!(L >= size as usize && n < count, "a block out of nothing");
            for i in 0..L {
                if i < size as usize {
                    assert!(buf[i] == mem[n as usize * size as usize + i], "another block");
                } else {
                    assert!(buf[i] == fill, "the rest of the buffer is written");
                }
            }
            cover!(n == count - 1, "the last block");
        }
        None => {
            assert!(L < size as usize || n >= count, "a block is refused");
            for i in 0..L {
                assert!(buf[i] == fill, "the buffer is written without a block");
            }
        }
    }
    std::mem::forget(d);
}
h_proof!(p15_mem_4, 26, { block::<20, 4>(4) });
h_proof!(p15_mem_partial, 26, { block::<19, 9>(4) });
h_proof!(p15_mem_short, 26, { block::<20, 7>(8) });
h_proof!(p15_mem_1, 26, { block::<5, 2>(1) });
h_proof!(p15_mem_small, 26, { block::<3, 16>(8) });
h_proof!(p15_mem_odd, 26, { block::<21, 8>(5) });

// The device as a stream of bytes: any seek, a read, and a clone.
h_proof!(p15_mem_stream, 14, {
    let mem: [u8; 12] = any();
    let mut d = InMemoryBlockDevice::new(mem, BlockSize(4));
    let p: u32 = any();
    assert!(drop_err(d.seek(SeekFrom::Start(p as u64))).is_some());
    let mut c = match drop_err(d.try_clone()) {
        Some(c) => c,
        None => panic!("no clone"),
    };
    let mut one = [0u8; 3];
    let n = match drop_err(d.read(&mut one)) {
        Some(n) => n,
        None => panic!("cannot be read"),
    };
    let p = (p as usize).min(12);
    assert!(n <= 3 && n <= 12 - p && (n > 0 || p == 12), "length");
    for i in 0..n {
        assert!(one[i] == mem[p + i], "bytes of another place");
    }
    let mut two = [0u8; 3];
    let m = match drop_err(c.read(&mut two)) {
        Some(n) => n,
        None => panic!("cannot be read"),
    };
    assert!(m <= 12 - p);
    for i in 0..m {
        assert!(two[i] == mem[p + i], "a clone does not read where the original would");
    }
    cover!(n == 2 && m == 2, "short");
    std::mem::forget((c, d));
});
