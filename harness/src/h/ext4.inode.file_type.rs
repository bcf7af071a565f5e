// File types, modes and flags of inodes and directory records.
use super::*;
use crate::ext4::inode::{FileMode, Flags, Permissions};
use crate::sym::*;

h_proof!(p31_mode, 10, {
    let v: u16 = any();
    let m = FileMode::from(v);
    let t = v >> 12;
    let known = match m.file_type() {
        FileType::Fifo => t == 1,
        FileType::CharacterDevice => t == 2,
        FileType::Directory => t == 4,
        FileType::BlockDevice => t == 6,
        FileType::RegularFile => t == 8,
        FileType::SymbolicLink => t == 10,
        FileType::Socket => t == 12,
        FileType::Unknown(u) => u as u16 == t && !matches!(t, 1 | 2 | 4 | 6 | 8 | 10 | 12),
    };
    assert!(known, "file type");
    assert!(m.permissions().bits() == v & 0xfff, "permissions");
    assert!(u16::from(m) == v, "a mode is changed");
    assert!(FileMode::from_file_type_and_permissions(m.file_type(), m.permissions()) == m, "a mode from its parts");
    assert!(ok(FileMode::try_write(ok(FileMode::try_read(v)))) == v, "a mode is lost");
    let x: u8 = any();
    assert!(u8::from(FileType::from(x)) == x, "a type is changed");
    macro_rules! bits {
        ($($n:ident $b:literal;)*) => {$( assert!(m.permissions().contains(Permissions::$n) == (v & $b != 0), stringify!($n)); )*};
    }
    bits! { SET_USER_ID 0o4000; SET_GROUP_ID 0o2000; STICKY 0o1000; USER_READ 0o400; USER_WRITE 0o200; USER_EXECUTE 0o100;
        GROUP_READ 0o40; GROUP_WRITE 0o20; GROUP_EXECUTE 0o10; OTHER_READ 4; OTHER_WRITE 2; OTHER_EXECUTE 1; }
});
h_proof!(p31_inode_flags, 10, {
    let v: u32 = any();
    let f = ok(Flags::try_read(v));
    assert!(f.bits() == v, "bits are lost");
    macro_rules! bits {
        ($($n:ident $b:literal;)*) => {$( assert!(f.contains(Flags::$n) == (v & $b != 0), stringify!($n)); )*};
    }
    bits! { SECURE_DELETE 1; UNDELETE 2; COMPRESSED 4; SYNCHRONOUS_UPDATES 8; IMMUTABLE 0x10; APPEND_ONLY 0x20; NO_DUMP 0x40;
        NO_UPDATE_ACCESS_TIME 0x80; DIRTY 0x100; COMPRESSED_CLUSTERS 0x200; NO_COMPRESS 0x400; ENCRYPTED 0x800;
        HASH_INDEXED_DIRECTORY 0x1000; AFS_DIRECTORY 0x2000; JOURNAL_DATA 0x4000; NO_TAIL_MERGE 0x8000; DIRECTORY_SYNC 0x10000;
        TOP_DIRECTORY 0x20000; HUGE_FILE 0x40000; HAS_EXTENTS 0x80000; VERITY_PROTECTED 0x100000; LARGE_EXTENDED_ATTRIBUTES 0x200000;
        DIRECT_ACCESS 0x2000000; HAS_INLINE_DATA 0x10000000; INHERIT_PROJECT_ID 0x20000000; CASE_FOLDED 0x40000000; RESERVED 0x80000000; }
});
