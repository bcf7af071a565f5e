// The ext4 superblock against struct ext4_super_block of Linux, and what is accepted as one.
use super::*;
use crate::sym::*;
use binary_layout::LayoutAs;

const N: usize = 1024;
fn seconds(low: u64, high: u64) -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(high << 32 | low)
}
/// Asserts that an accessor is the little-endian field at an offset.
macro_rules! fields {
    ($s:ident $b:ident: $($f:ident $at:literal $n:literal;)*) => {$(
        assert!(u64::from($s.$f()) == le(&$b, $at, $n), stringify!($f));
    )*};
}

h_proof!(p16_scalars, 10, {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    fields! { s b:
        blocks_per_group 0x20 4; clusters_per_group 0x24 4; mount_count 0x34 2; max_mount_count 0x36 2; magic 0x38 2;
        minor_revision_level 0x3e 2; revision_level 0x4c 4; default_reserved_user_id 0x50 2; default_reserved_group_id 0x52 2;
        first_inode 0x54 4; inode_size 0x58 2; block_group_number 0x5a 2; algorithm_usage_bitmap 0xc8 4;
        preallocate_blocks 0xcc 1; preallocate_directory_blocks 0xcd 1; reserved_gdt_blocks 0xce 2;
        journal_inode_number 0xe0 4; journal_device_number 0xe4 4; last_orphan 0xe8 4; journal_backup_type 0xfd 1;
        group_descriptor_size 0xfe 2; first_meta_block_group 0x104 4; minimum_extra_inode_size 0x15c 2;
        wanted_extra_inode_size 0x15e 2; raid_stride 0x164 2; multi_mount_prevention_interval 0x166 2;
        multi_mount_prevention_block 0x168 8; raid_stripe_width 0x170 4; kbytes_written 0x178 8;
        snapshot_inode_number 0x180 4; snapshot_id 0x184 4; snapshot_reserved_blocks_count 0x188 8;
        snapshot_list_inode_number 0x190 4; error_count 0x194 4; first_error_inode 0x19c 4; first_error_block 0x1a0 8;
        first_error_line 0x1c8 4; last_error_inode 0x1d0 4; last_error_line 0x1d4 4; last_error_block 0x1d8 8;
        user_quota_inode_number 0x240 4; group_quota_inode_number 0x244 4; overhead_blocks 0x248 4;
        lost_and_found_inode_number 0x268 4; project_quota_inode_number 0x26c 4; filename_character_encoding 0x27c 2;
        filename_character_encoding_flags 0x27e 2; orphan_file_inode_number 0x280 4;
    }
    assert!(s.inodes_count().0 as u64 == le(&b, 0, 4), "inodes");
    assert!(s.free_inodes_count().0 as u64 == le(&b, 0x10, 4), "free inodes");
    assert!(s.inodes_per_group().0 as u64 == le(&b, 0x28, 4), "inodes per group");
    assert!(s.first_data_block().0 == le(&b, 0x14, 4), "first data block");
    assert!(s.blocks_count().0 == le(&b, 4, 4) | le(&b, 0x150, 4) << 32, "blocks");
    assert!(s.reserved_blocks_count().0 == le(&b, 8, 4) | le(&b, 0x154, 4) << 32, "reserved blocks");
    assert!(s.free_blocks_count().0 == le(&b, 0xc, 4) | le(&b, 0x158, 4) << 32, "free blocks");
    let backups = s.superblock_backup_block_groups();
    assert!(backups[0] as u64 == le(&b, 0x24c, 4) && backups[1] as u64 == le(&b, 0x250, 4), "backups");
});
h_proof!(p16_sizes, 10, {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    // Sizes that do not fit are no power of two at all.
    let power = |log: u64| if log < 64 { 1u64 << log } else { 0 };
    assert!(s.block_size_bytes() == power(le(&b, 0x18, 4) + 10), "block size");
    assert!(s.cluster_size_blocks() == power(le(&b, 0x1c, 4) + 10), "cluster size");
    assert!(s.groups_per_flex() == power(b[0x174] as u64), "groups per flex");
    cover!(s.block_size_bytes() == 4096, "4 KiB");
});
h_proof!(p16_flags, 10, {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    assert!(s.state().bits() as u64 == le(&b, 0x3a, 2), "state");
    assert!(s.compatible_features().bits() as u64 == le(&b, 0x5c, 4), "compatible features");
    assert!(s.incompatible_features().bits() as u64 == le(&b, 0x60, 4), "incompatible features");
    assert!(s.read_only_compatible_features().bits() as u64 == le(&b, 0x64, 4), "read-only compatible features");
    assert!(s.default_mount_options().bits() as u64 == le(&b, 0x100, 4), "mount options");
    assert!(s.flags().bits() as u64 == le(&b, 0x160, 4), "flags");
    assert!(u16::from(s.error_policy()) as u64 == le(&b, 0x3c, 2), "error policy");
    assert!(u32::from(s.creator_os()) as u64 == le(&b, 0x48, 4), "creator");
    assert!(u8::from(s.default_hash_version()) == b[0xfc], "hash version");
    match s.checksum() {
        Checksum::None => assert!(b[0x175] == 0, "checksum overlooked"),
        Checksum::Crc32c(c) => assert!(b[0x175] == 1 && c as u64 == le(&b, 0x3fc, 4), "checksum"),
        Checksum::Unknown(t, c) => assert!(b[0x175] > 1 && t == b[0x175] && c as u64 == le(&b, 0x3fc, 4), "unknown checksum"),
    }
});
h_proof!(p16_times, 10, {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    let time = |low, high: usize| seconds(le(&b, low, 4), b[high] as u64);
    let some = |t: SystemTime| (t != SystemTime::UNIX_EPOCH).then_some(t);
    assert!(s.write_time() == time(0x30, 0x274), "write time");
    assert!(s.mount_time() == some(time(0x2c, 0x275)), "mount time");
    assert!(s.creation_time() == some(time(0x108, 0x276)), "creation time");
    assert!(s.last_check_time() == time(0x40, 0x277), "time of the last check");
    assert!(s.first_error_time() == some(time(0x198, 0x278)), "time of the first error");
    assert!(s.last_error_time() == some(time(0x1cc, 0x279)), "time of the last error");
    let interval = le(&b, 0x44, 4);
    assert!(s.check_interval() == (interval != 0).then_some(Duration::from_secs(interval)), "check interval");
});
fn same(a: &[u8], b: &[u8; N], at: usize, n: usize) -> bool {
    let mut same = a.len() == n;
    for i in 0..n {
        if i < a.len() {
            same &= a[i] == b[at + i];
        }
    }
    same
}
h_proof!(p16_bytes, 72, {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    assert!(same(s.uuid().as_bytes(), &b, 0x68, 16), "uuid");
    assert!(same(s.journal_uuid().as_bytes(), &b, 0xd0, 16), "journal uuid");
    assert!(same(s.hash_seed(), &b, 0xec, 16), "hash seed");
    assert!(same(s.journal_blocks(), &b, 0x10c, 68), "journal blocks");
    assert!(same(s.encryption_password_salt(), &b, 0x258, 16), "salt");
});
/// A string is the bytes up to the first zero, if any; an empty one may be none.
fn string(got: Option<Ext4String<&[u8]>>, b: &[u8; N], at: usize, n: usize) {
    match got {
        None => assert!(b[at] == 0, "a name is overlooked"),
        Some(s) => {
            let s: &[u8] = (&s).into();
            assert!(s.len() <= n, "length of a name");
            let mut ended = false;
            for i in 0..n {
                ended |= b[at + i] == 0;
                assert!(ended == (i >= s.len()), "the end of a name");
                if !ended {
                    assert!(s[i] == b[at + i], "a name");
                }
            }
        }
    }
}
h_proof!(p16_names, 66, {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    string(s.volume_name(), &b, 0x78, 16);
    string(s.last_mounted_path(), &b, 0x88, 64);
});
h_proof!(p16_names_of_errors, 66, {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    string(s.first_error_function_name(), &b, 0x1a8, 32);
    string(s.last_error_function_name(), &b, 0x1e0, 32);
    string(Some(s.mount_options()), &b, 0x200, 64);
});
h_proof!(p16_encryption, 10, {
    let mut b = [7u8; N];
    for i in 0..4 {
        b[0x254 + i] = any();
    }
    let s = Superblock::new(&b[..]);
    let e = s.encryption_algorithms();
    let mut n = 0;
    for i in 0..4 {
        if b[0x254 + i] != 0 {
            assert!(n < e.len() && u8::from(e[n]) == b[0x254 + i], "encryption algorithm");
            n += 1;
        }
    }
    assert!(e.len() == n, "number of encryption algorithms");
    std::mem::forget(e);
});
#[cfg_attr(kani, kani::proof, kani::unwind(18), kani::stub(std::alloc::dealloc, crate::sym::no_dealloc),
    kani::stub(crate::ext4::crc::ext4_crc32c, crate::sym::crc))]
pub fn p16_checksum_seed() {
    let b: [u8; N] = any();
    let s = Superblock::new(&b[..]);
    let expected = if le(&b, 0x60, 4) & 0x2000 != 0 {
        le(&b, 0x270, 4) as u32
    } else if le(&b, 0x64, 4) & 0x400 != 0 {
        crc(!0, &b[0x68..0x78])
    } else {
        0
    };
    cover!(expected != 0, "a seed");
    assert!(s.checksum_seed() == expected, "checksum seed");
}

/// Which superblocks are accepted, apart from the checksum.
fn coherent(b: &[u8; N]) -> bool {
    let bigalloc = le(b, 0x64, 4) & 0x200 != 0;
    let errors = le(b, 0x3c, 2);
    let (block, cluster) = (le(b, 0x18, 4), le(b, 0x1c, 4));
    le(b, 0x38, 2) == 0xef53
        && block <= 6
        && (if bigalloc { cluster < 53 } else { cluster == block && le(b, 0x24, 4) == le(b, 0x20, 4) })
        && errors >= 1
        && errors <= 3
        && b[0x174] < 63
}
h_proof!(p17_coherent, 10, {
    let mut b: [u8; N] = any();
    b[0x175] = 0;
    cover!(coherent(&b), "accepted");
    assert!(Superblock::new(&b[..]).valid() == coherent(&b), "what is accepted");
});
/// With a checksum of any type, over any content.
fn checksum() {
    let mut b: [u8; N] = any();
    let difference: u32 = any();
    let c = (crc(!0, &b[..N - 4]) ^ difference).to_le_bytes();
    for i in 0..4 {
        b[N - 4 + i] = c[i];
    }
    let expected = coherent(&b)
        && match b[0x175] {
            0 => true,
            1 => difference == 0,
            _ => false,
        };
    cover!(b[0x175] == 1 && expected, "a checksum that matches");
    assert!(Superblock::new(&b[..]).valid() == expected, "the checksum");
}
macro_rules! h_stubbed {
    ($name:ident, $unwind:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::stub(std::alloc::dealloc, crate::sym::no_dealloc),
            kani::stub(crate::ext4::crc::ext4_crc32c, crate::sym::crc))]
        pub fn $name() $body
    };
}
h_stubbed!(p17_checksum, 1026, { checksum() });

struct Source<'a>(&'a [u8; N], bool);
impl Read for Source<'_> {
    fn read(&mut self, _: &mut [u8]) -> Result<usize> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        if self.1 || buf.len() != N {
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        for i in 0..N {
            buf[i] = self.0[i];
        }
        Ok(())
    }
}
h_proof!(p17_read, 1026, {
    let mut b = [0u8; N];
    for i in [0x18, 0x1c, 0x38, 0x39, 0x3c] {
        b[i] = any();
    }
    match drop_err(Superblock::read(Source(&b, false))) {
        None => assert!(!coherent(&b), "a superblock is refused"),
        Some(s) => {
            assert!(coherent(&b), "something else is taken for a superblock");
            assert!(s.block_size_bytes() == 1024 << b[0x18], "contents");
            cover!(true, "read");
            std::mem::forget(s);
        }
    }
    assert!(drop_err(Superblock::read(Source(&b, true))).is_none(), "a failure to read");
});

// Enumerations and flags
h_proof!(p31_superblock, 10, {
    let v: u32 = any();
    let known = match CreatorOs::from(v) {
        CreatorOs::Linux => v == 0,
        CreatorOs::Hurd => v == 1,
        CreatorOs::Masix => v == 2,
        CreatorOs::FreeBsd => v == 3,
        CreatorOs::Lites => v == 4,
        CreatorOs::Unknown(u) => v > 4 && u == v,
    };
    assert!(known, "creator");
    let w: u16 = any();
    let known = match ErrorPolicy::from(w) {
        ErrorPolicy::Continue => w == 1,
        ErrorPolicy::RemountReadOnly => w == 2,
        ErrorPolicy::Panic => w == 3,
        ErrorPolicy::Unknown(u) => (w == 0 || w > 3) && u == w,
    };
    assert!(known, "error policy");
    let x: u8 = any();
    let known = match HashVersion::from(x) {
        HashVersion::Legacy => x == 0,
        HashVersion::HalfMd4 => x == 1,
        HashVersion::Tea => x == 2,
        HashVersion::LegacyUnsigned => x == 3,
        HashVersion::HalfMd4Unsigned => x == 4,
        HashVersion::TeaUnsigned => x == 5,
        HashVersion::Unknown(u) => x > 5 && u == x,
    };
    assert!(known, "hash version");
    let known = match EncryptionAlgorithm::from(x) {
        EncryptionAlgorithm::Invalid => x == 0,
        EncryptionAlgorithm::Aes256Xts => x == 1,
        EncryptionAlgorithm::Aes256Gcm => x == 2,
        EncryptionAlgorithm::Aes256Cbc => x == 3,
        EncryptionAlgorithm::Unknown(u) => x > 3 && u == x,
    };
    assert!(known, "encryption algorithm");
    let known = match ChecksumType::from(x) {
        ChecksumType::None => x == 0,
        ChecksumType::Crc32c => x == 1,
        ChecksumType::Unknown(u) => x > 1 && u == x,
    };
    assert!(known, "checksum type");
    assert!(u32::from(CreatorOs::from(v)) == v && u16::from(ErrorPolicy::from(w)) == w, "a value is lost");
    assert!(u8::from(HashVersion::from(x)) == x && u8::from(EncryptionAlgorithm::from(x)) == x && u8::from(ChecksumType::from(x)) == x, "a value is lost");
    // an unknown code is never taken for a known one when it is written back as itself
    assert!(ok(CreatorOs::try_write(ok(CreatorOs::try_read(v)))) == v && ok(ErrorPolicy::try_write(ok(ErrorPolicy::try_read(w)))) == w, "a value is lost");
    assert!(ok(HashVersion::try_write(ok(HashVersion::try_read(x)))) == x && ok(ChecksumType::try_write(ok(ChecksumType::try_read(x)))) == x, "a value is lost");
    assert!(ok(EncryptionAlgorithm::try_write(ok(EncryptionAlgorithm::try_read(x)))) == x, "a value is lost");
});
/// Each named flag is the bit Linux defines.
h_proof!(p31_superblock_flags, 10, {
    let v: u32 = any();
    let w: u16 = any();
    let c = ok(CompatibleFeatures::try_read(v));
    let i = ok(IncompatibleFeatures::try_read(v));
    let r = ok(ReadOnlyCompatibleFeatures::try_read(v));
    let m = ok(MountOptions::try_read(v));
    let f = ok(Flags::try_read(v));
    let s = ok(State::try_read(w));
    macro_rules! bits {
        ($x:ident $v:ident $t:ident: $($n:ident $b:literal;)*) => {$(
            assert!($x.contains($t::$n) == ($v & $b != 0), stringify!($n));
        )*};
    }
    bits! { c v CompatibleFeatures: DIRECTORY_PREALLOCATION 1; MAGIC_INODES 2; HAS_JOURNAL 4; SUPPORTS_EXTENDED_ATTRIBUTES 8;
        HAS_RESERVED_GDT_BLOCKS 0x10; HAS_DIRECTORY_INDICES 0x20; LAZY_BG 0x40; EXCLUDE_INODE 0x80; EXCLUDE_BITMAP 0x100;
        SPARSE_SUPERBLOCK_V2 0x200; SUPPORTS_FAST_COMMITS 0x400; ORPHAN_PRESENT 0x1000; }
    bits! { i v IncompatibleFeatures: COMPRESSION 1; DIRECTORY_ENTRIES_RECORD_FILE_TYPE 2; NEEDS_RECOVERY 4;
        HAS_SEPARATE_JOURNAL_DEVICE 8; HAS_META_BLOCK_GROUPS 0x10; FILES_USE_EXTENTS 0x40; IS_64_BIT 0x80;
        MULTIPLE_MOUNT_PROTECTION 0x100; FLEXIBLE_BLOCK_GROUPS 0x200; INODES_STORE_LARGE_EXTENDED_ATTRIBUTE_VALUES 0x400;
        DATA_IN_DIRECTORY_ENTRY 0x1000; METADATA_CHECKSUM_SEED 0x2000; LARGE_DIRECTORIES 0x4000; DATA_IN_INODE 0x8000;
        HAS_ENCRYPTED_INODES 0x10000; }
    bits! { r v ReadOnlyCompatibleFeatures: SPARSE_SUPERBLOCKS 1; CONTAINS_LARGE_FILES 2; BTREE_DIR 4; CONTAINS_HUGE_FILES 8;
        GROUP_DESCRIPTORS_HAVE_CHECKSUMS 0x10; UNLIMITED_SUBDIRECTORIES 0x20; CONTAINS_LARGE_INODES 0x40; HAS_SNAPSHOT 0x80;
        QUOTA 0x100; BIGALLOC 0x200; METADATA_CHECKSUMS 0x400; REPLICA 0x800; READ_ONLY 0x1000; PROJECT_QUOTA 0x2000;
        VERITY 0x8000; ORPHAN_PRESENT 0x10000; }
    bits! { m v MountOptions: PRINT_DEBUGGING_INFO 1; NEW_FILES_INHERIT_DIRECTORY_GROUP_ID 2; ENABLE_USERSPACE_EXTENDED_ATTRIBUTES 4;
        ENABLE_POSIX_ACLS 8; DISABLE_16_BIT_USER_IDS 0x10; DISABLE_WRITE_FLUSHES 0x100; TRACK_METADATA_BLOCKS 0x200;
        ENABLE_DISCARD 0x400; DISABLE_DELAYED_ALLOCATION 0x800; }
    bits! { f v Flags: SIGNED_DIRECTORY_HASH 1; UNSIGNED_DIRECTORY_HASH 2; TEST_FILESYSTEM 4; }
    bits! { s w State: CLEANLY_UNMOUNTED 1; ERRORS_DETECTED 2; ORPHANS_BEING_RECOVERED 4; }
    assert!(c.bits() == v && i.bits() == v && r.bits() == v && m.bits() == v && f.bits() == v && s.bits() == w, "bits are lost");
});
