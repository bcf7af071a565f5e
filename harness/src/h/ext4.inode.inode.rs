// Inodes against struct ext4_inode of Linux.
use super::*;
use crate::ext4::inode::time::verif::h_time;
use crate::sym::*;

/// What the superblock says that matters to inodes
fn superblock(read_only_features: u32, incompatible_features: u32, seed: u32) -> [u8; 1024] {
    let mut b = [0u8; 1024];
    for (at, v) in [(0x60, incompatible_features), (0x64, read_only_features), (0x270, seed)] {
        let v = v.to_le_bytes();
        for i in 0..4 {
            b[at + i] = v[i];
        }
    }
    b
}
/// An inode of N bytes: fields beyond N, or beyond its extra size, are zero.
fn decode<const N: usize>(extra: u16) {
    let mut disk: [u8; N] = any();
    if N >= 130 {
        disk[128] = extra as u8;
        disk[129] = (extra >> 8) as u8;
    }
    let end = if N >= 130 { 128 + extra as usize } else { 128 };
    let mut b = [0u8; 160];
    for i in 0..160 {
        if i < N && i < end {
            b[i] = disk[i];
        }
    }
    let s = superblock(0, 0, 0);
    let i = Inode::new(&Superblock::new(&s[..]), InodeNumber(any()), &disk[..]);
    assert!(i.metadata_checksum_seed().is_none(), "a checksum out of nothing");
    assert!(u16::from(i.file_mode()) as u64 == le(&b, 0, 2), "mode");
    assert!(u8::from(i.file_type()) as u64 == le(&b, 0, 2) >> 12, "type");
    assert!(i.permissions().bits() as u64 == le(&b, 0, 2) & 0xfff, "permissions");
    assert!(i.owner_user_id() as u64 == le(&b, 2, 2) | le(&b, 0x78, 2) << 16, "owner");
    assert!(i.group_id() as u64 == le(&b, 0x18, 2) | le(&b, 0x7a, 2) << 16, "group");
    assert!(i.file_size_bytes() == le(&b, 4, 4) | le(&b, 0x6c, 4) << 32, "size");
    assert!(i.links_count() as u64 == le(&b, 0x1a, 2), "links");
    assert!(i.block_count().0 == le(&b, 0x1c, 4) | le(&b, 0x74, 2) << 32, "blocks");
    assert!(i.flags().bits() as u64 == le(&b, 0x20, 4), "flags");
    assert!(i.version() == le(&b, 0x24, 4) | le(&b, 0x98, 4) << 32, "version");
    assert!(i.generation() as u64 == le(&b, 0x64, 4), "generation");
    assert!(i.file_acl() == le(&b, 0x68, 4) | le(&b, 0x76, 2) << 32, "attributes");
    assert!(i.checksum() as u64 == le(&b, 0x7c, 2) | le(&b, 0x82, 2) << 16, "checksum");
    assert!(i.project_id() as u64 == le(&b, 0x9c, 4), "project");
    let blocks = i.blocks_buffer();
    for k in 0..60 {
        assert!(blocks[k] == b[0x28 + k], "block map");
    }
}
h_proof!(p19_classic, 162, { decode::<128>(0) });
h_proof!(p19_usual, 162, { decode::<256>(32) });
h_proof!(p19_extra, 162, {
    decode::<160>(4);
    decode::<160>(28);
});
h_proof!(p19_corrupt_extra, 162, { decode::<256>(0xffff) });
h_proof!(p19_short_extra, 162, {
    decode::<140>(32);
    decode::<129>(0);
});
// Any extra size
h_proof!(p19_any_extra, 162, {
    let mut disk = [0u8; 160];
    let extra: u16 = any();
    disk[128] = extra as u8;
    disk[129] = (extra >> 8) as u8;
    disk[156] = 1;
    disk[152] = 2;
    disk[130] = 3;
    let s = superblock(0, 0, 0);
    let i = Inode::new(&Superblock::new(&s[..]), InodeNumber(any()), &disk[..]);
    assert!(i.project_id() == (extra >= 29) as u32, "project");
    assert!(i.version() == ((extra >= 25) as u64) << 33, "version");
    assert!(i.checksum() == ((extra >= 3) as u32) * (3 << 16), "checksum");
    cover!(extra == 32, "the usual extra size");
});
macro_rules! h_stubbed {
    ($name:ident, $unwind:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::stub(std::alloc::dealloc, crate::sym::no_dealloc),
            kani::stub(crate::ext4::crc::ext4_crc32c, crate::sym::crc))]
        pub fn $name() $body
    };
}
// The seed of an inode's checksums is that of the file system continued over number and generation.
h_stubbed!(p19_seed, 162, {
    let mut disk = [0u8; 128];
    for i in 0x60..0x68 {
        disk[i] = any();
    }
    let read_only: u32 = any();
    let incompatible: u32 = any();
    let seed: u32 = any();
    let number: u32 = any();
    let s = superblock(read_only, incompatible, seed);
    let i = Inode::new(&Superblock::new(&s[..]), InodeNumber(number), &disk[..]);
    let seed = if incompatible & 0x2000 != 0 { seed } else { crc(!0, [0; 16]) };
    let expected = crc(crc(seed, number.to_le_bytes()), &disk[0x64..0x68]);
    cover!(read_only & 0x400 != 0, "checksums");
    assert!(i.metadata_checksum_seed() == (read_only & 0x400 != 0).then_some(expected), "seed of the checksums");
});
// Times
h_time!(p20_inode, 162, {
    let mut disk = [0u8; 160];
    disk[128] = 32;
    for i in [8, 12, 16, 20, 0x84, 0x88, 0x8c, 0x90, 0x94] {
        for k in 0..4 {
            disk[i + k] = any();
        }
    }
    let s = superblock(0, 0, 0);
    let i = Inode::new(&Superblock::new(&s[..]), InodeNumber(any()), &disk[..]);
    let time = |t: DateTime<Utc>, at: usize, extra: usize, what: &'static str| {
        let e = le(&disk, extra, 4);
        let n = e >> 2;
        let seconds = le(&disk, at, 4) as u32 as i32 as i64 + ((e & 3) << 32) as i64 + (n >= 1_000_000_000) as i64;
        let _ = what;
        assert!(t.timestamp() == seconds, "seconds");
        assert!(t.timestamp_subsec_nanos() as u64 == if n >= 1_000_000_000 { n - 1_000_000_000 } else { n }, "nanoseconds");
    };
    time(i.access_time(), 8, 0x8c, "access");
    time(i.change_time(), 12, 0x84, "change");
    time(i.modified_time(), 16, 0x88, "modification");
    time(i.creation_time(), 0x90, 0x94, "creation");
    let deleted = i.delete_time();
    assert!(deleted.timestamp() as u64 == le(&disk, 20, 4) && deleted.timestamp_subsec_nanos() == 0, "deletion");
});
h_time!(p20_inode_classic, 162, {
    let mut disk = [0u8; 128];
    for i in [8, 12, 16] {
        for k in 0..4 {
            disk[i + k] = any();
        }
    }
    let s = superblock(0, 0, 0);
    let i = Inode::new(&Superblock::new(&s[..]), InodeNumber(any()), &disk[..]);
    for (t, at) in [(i.access_time(), 8), (i.change_time(), 12), (i.modified_time(), 16)] {
        assert!(t.timestamp() == le(&disk, at, 4) as u32 as i32 as i64 && t.timestamp_subsec_nanos() == 0, "time");
    }
    assert!(i.creation_time().timestamp() == 0, "time of creation");
});
