// Block group descriptors against struct ext4_group_desc of Linux.
use super::*;
use crate::sym::*;

/// A descriptor of N bytes on disk; fields beyond it are zero.
fn decode<const N: usize>() {
    let disk: [u8; N] = any();
    let mut b = [0u8; 64];
    let mut i = 0;
    while i < 64 {
        if i < N {
            b[i] = disk[i];
        }
        i += 1;
    }
    let d = BlockGroupDescriptor::new(&disk[..]);
    assert!(d.block_bitmap_block().0 == le(&b, 0, 4) | le(&b, 0x20, 4) << 32, "block bitmap");
    assert!(d.inode_bitmap_block().0 == le(&b, 4, 4) | le(&b, 0x24, 4) << 32, "inode bitmap");
    assert!(d.inode_table_block().0 == le(&b, 8, 4) | le(&b, 0x28, 4) << 32, "inode table");
    assert!(d.free_block_count().0 as u64 == le(&b, 0xc, 2) | le(&b, 0x2c, 2) << 16, "free blocks");
    assert!(d.free_inode_count() as u64 == le(&b, 0xe, 2) | le(&b, 0x2e, 2) << 16, "free inodes");
    assert!(d.used_directories_count() as u64 == le(&b, 0x10, 2) | le(&b, 0x30, 2) << 16, "directories");
    assert!(d.flags().bits() as u64 == le(&b, 0x12, 2), "flags");
    assert!(d.exclude_bitmap_block().0 == le(&b, 0x14, 4) | le(&b, 0x34, 4) << 32, "exclude bitmap");
    assert!(d.block_bitmap_checksum() as u64 == le(&b, 0x18, 2) | le(&b, 0x38, 2) << 16, "block bitmap checksum");
    assert!(d.inode_bitmap_checksum() as u64 == le(&b, 0x1a, 2) | le(&b, 0x3a, 2) << 16, "inode bitmap checksum");
    assert!(d.unused_inode_count() as u64 == le(&b, 0x1c, 2) | le(&b, 0x32, 2) << 16, "unused inodes");
    assert!(d.checksum() as u64 == le(&b, 0x1e, 2), "checksum");
}
h_proof!(p21_classic, 66, { decode::<32>() });
h_proof!(p21_wide, 66, { decode::<64>() });
h_proof!(p21_odd, 66, {
    decode::<0>();
    decode::<1>();
    decode::<33>();
    decode::<59>();
    decode::<60>();
});
h_proof!(p21_wider, 66, {
    decode::<65>();
    decode::<128>();
});
h_proof!(p31_group_flags, 10, {
    let d: [u8; 32] = any();
    let f = BlockGroupDescriptor::new(d).flags();
    let v = le(&d, 0x12, 2) as u16;
    assert!(f.contains(Flags::INODE_NOT_IN_USE) == (v & 1 != 0), "inodes not in use");
    assert!(f.contains(Flags::BLOCK_BITMAP_NOT_IN_USE) == (v & 2 != 0), "block bitmap not in use");
    assert!(f.contains(Flags::INODE_TABLE_ZEROED) == (v & 4 != 0), "inode table zeroed");
    assert!(f.bits() == v, "bits are lost");
});
