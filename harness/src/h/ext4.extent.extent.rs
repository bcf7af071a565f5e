// Extent records against struct ext4_extent of Linux.
use super::*;
use crate::ext4::extent::index::ExtentIndex;
use crate::sym::*;

h_proof!(p24_extent, 14, {
    let b: [u8; 12] = any();
    let e = Extent::new(&b[..]);
    let n = le(&b, 4, 2);
    assert!(e.first_file_block_number().0 as u64 == le(&b, 0, 4), "logical block");
    assert!(e.initialized() == (n <= 32768), "initialized");
    assert!(e.length().0 as u64 == if n <= 32768 { n } else { n - 32768 }, "length");
    assert!(e.first_fs_block_number().0 == le(&b, 8, 4) | le(&b, 6, 2) << 32, "physical block");
    cover!(n == 32768, "the longest initialized extent");
    let o = e.into_owned();
    assert!(o.first_file_block_number().0 as u64 == le(&b, 0, 4), "logical block of a copy");
    assert!(o.initialized() == (n <= 32768), "a copy is initialized");
    assert!(o.length().0 as u64 == if n <= 32768 { n } else { n - 32768 }, "length of a copy");
    assert!(o.first_fs_block_number().0 == le(&b, 8, 4) | le(&b, 6, 2) << 32, "physical block of a copy");
    std::mem::forget(o);
});
h_proof!(p24_index, 14, {
    let b: [u8; 12] = any();
    let i = ExtentIndex::new(&b[..]);
    assert!(i.block().0 as u64 == le(&b, 0, 4), "logical block");
    assert!(i.leaf().0 == le(&b, 4, 4) | le(&b, 8, 2) << 32, "child block");
});
h_proof!(p24_owned, 14, {
    // the storage of a record may be longer than the record
    let b: [u8; 16] = any();
    let i = ExtentIndex::new(b);
    assert!(i.leaf().0 == le(&b, 4, 4) | le(&b, 8, 2) << 32, "child block");
    let e = Extent::new(b);
    assert!(e.first_fs_block_number().0 == le(&b, 8, 4) | le(&b, 6, 2) << 32, "physical block");
});
