// File types of directory records.
use super::*;
use crate::sym::*;

h_proof!(p31_directory_type, 10, {
    let v: u8 = any();
    let t = ok(Ext4DirectoryInlineFileType::try_read(v));
    let (known, mode) = match t {
        Ext4DirectoryInlineFileType::RegularFile => (v == 1, 8),
        Ext4DirectoryInlineFileType::Directory => (v == 2, 4),
        Ext4DirectoryInlineFileType::CharacterDevice => (v == 3, 2),
        Ext4DirectoryInlineFileType::BlockDevice => (v == 4, 6),
        Ext4DirectoryInlineFileType::Fifo => (v == 5, 1),
        Ext4DirectoryInlineFileType::Socket => (v == 6, 12),
        Ext4DirectoryInlineFileType::SymbolicLink => (v == 7, 10),
        Ext4DirectoryInlineFileType::Unknown(u) => ((v == 0 || v > 7) && u == v, 0),
    };
    assert!(known, "file type");
    assert!(ok(Ext4DirectoryInlineFileType::try_write(t)) == v, "a type is lost");
    assert!(Ext4DirectoryInlineFileType::from(v) == t && u8::from(t) == v, "a type is changed");
    if v >= 1 && v <= 7 {
        let i = FileType::from(t);
        assert!(u8::from(i) == mode, "the type of an inode");
        assert!(Ext4DirectoryInlineFileType::from(i) == t, "and back");
    }
});
