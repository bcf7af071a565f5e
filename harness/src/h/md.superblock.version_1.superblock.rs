// Version 1 superblocks against struct mdp_superblock_1 of Linux.
use super::*;
use crate::sym::*;

const N: usize = 264;
fn any_superblock() -> ([u8; N], SuperblockVersion1<[u8; N]>) {
    let b: [u8; N] = any();
    (b, SuperblockVersion1::new(b, 2))
}

h_proof!(p07_scalars, 34, {
    let b: [u8; N] = any();
    let minor: u32 = any();
    let s = SuperblockVersion1::new(b, minor);
    assert!(s.minor_version() == minor, "minor version");
    assert!(s.major_version() as u64 == le(&b, 4, 4), "major version");
    assert!(s.valid() == (le(&b, 0, 4) == 0xa92b4efc && le(&b, 4, 4) == 1), "validity");
    cover!(s.valid(), "valid");
    assert!(s.sectors_per_device().0 == le(&b, 80, 8), "size");
    assert!(s.chunk_size().0 as u64 == le(&b, 88, 4), "chunk size");
    assert!(s.raid_device_count().0 as u64 == le(&b, 92, 4), "raid disks");
    assert!(s.data_offset().0 == le(&b, 128, 8), "data offset");
    assert!(s.device_role_index() as u64 == le(&b, 160, 4), "device number");
    assert!(s.event_count().0 == le(&b, 200, 8), "events");
    assert!(s.algorithm() == MdAlgorithm::from_level_and_layout(le(&b, 72, 4) as u32, le(&b, 76, 4) as u32), "algorithm");
});
h_proof!(p07_identity, 36, {
    let (b, s) = any_superblock();
    let mut uuid = [0u8; 16];
    let mut i = 0;
    while i < 16 {
        uuid[i] = b[16 + i];
        i += 1;
    }
    assert!(s.array_uuid() == ArrayUuid::from_u8_16(&uuid), "uuid");
    match s.array_name() {
        None => panic!("no name"),
        Some(name) => {
            let name = name.as_bytes();
            assert!(name.len() <= 32, "length of the name");
            for i in 0..32 {
                if i < name.len() {
                    assert!(name[i] == b[32 + i], "name");
                } else {
                    // only padding may be left out
                    assert!(b[32 + i] == 0, "the end of the name");
                }
            }
        }
    }
});
h_proof!(p07_reshape, 10, {
    let (b, s) = any_superblock();
    let active = le(&b, 8, 4) & 4 != 0;
    match s.reshape_status() {
        None => assert!(!active, "the reshape is overlooked"),
        Some(r) => {
            assert!(active, "a reshape out of nothing");
            cover!(true, "reshape");
            assert!(r.new_algorithm == MdAlgorithm::from_level_and_layout(le(&b, 100, 4) as u32, le(&b, 116, 4) as u32), "new algorithm");
            assert!(r.reshape_position.0 == le(&b, 104, 8), "reshape position");
            assert!(r.delta_devices.0 as u64 == le(&b, 112, 4), "delta disks");
            assert!(r.new_chunk_size.0 as u64 == le(&b, 120, 4), "new chunk size");
            assert!(r.new_offset as u64 == le(&b, 124, 4), "new offset");
        }
    }
});
h_proof!(p07_gated, 10, {
    let (b, s) = any_superblock();
    let features = le(&b, 8, 4);
    assert!(s.bitmap_offset().map(u64::from) == (features & 1 != 0).then_some(le(&b, 96, 4)), "bitmap offset");
    assert!(s.recovery_offset() == (features & 2 != 0).then_some(le(&b, 152, 8)), "recovery offset");
    assert!(s.journal_tail() == (features & 512 != 0).then_some(le(&b, 152, 8)), "journal tail");
    assert!(s.ppl_info().is_some() == (features & 1024 != 0), "partial parity log");
    cover!(features & 1 != 0, "bitmap");
});
/// Room for 4 roles; `count` of them (or more) in use.
fn roles(count: u32) {
    let mut b: [u8; N] = any();
    let c = count.to_le_bytes();
    for i in 0..4 {
        b[220 + i] = c[i];
    }
    let s = SuperblockVersion1::new(b, 2);
    let roles = s.device_roles();
    let n = count.min(4) as usize;
    assert!(roles.len() == n, "number of roles");
    for i in 0..n {
        let v = le(&b, 256 + 2 * i, 2) as u32;
        let r = roles[i];
        assert!(r.device_number().map(|d| d.0) == (v < 0xff00).then_some(v), "position");
        assert!(r.is_spare() == (v == 0xffff), "spare");
        assert!(r.is_faulty() == (v == 0xfffe), "faulty");
        assert!(r.is_journal() == (v == 0xfffd), "journal");
    }
    std::mem::forget(roles);
}
h_proof!(p07_roles, 10, {
    roles(0);
    roles(1);
    roles(3);
});
h_proof!(p07_roles_full, 10, {
    roles(4);
    roles(5);
    roles(0xffff_ffff);
});

/// A reader of 4096 bytes (or fewer) of which the first eight and the role index are given.
struct Source {
    bytes: [u8; 8],
    index: u8,
    short: bool,
}
impl Read for Source {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if self.short || buf.len() != 4096 {
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        for i in 0..8 {
            buf[i] = self.bytes[i];
        }
        buf[160] = self.index;
        Ok(())
    }
}
h_proof!(p07_read, 10, {
    let bytes: [u8; 8] = any();
    let index: u8 = any();
    let minor: u32 = any();
    let valid = le(&bytes, 0, 4) == 0xa92b4efc && le(&bytes, 4, 4) == 1;
    match drop_err(SuperblockVersion1::read(Source { bytes, index, short: false }, minor)) {
        None => assert!(!valid, "a superblock is refused"),
        Some(s) => {
            assert!(valid, "something else is taken for a superblock");
            assert!(s.minor_version() == minor && s.device_role_index() == index as usize, "contents");
            cover!(true, "accepted");
            std::mem::forget(s);
        }
    }
    assert!(drop_err(SuperblockVersion1::read(Source { bytes, index, short: true }, minor)).is_none(), "a failure to read");
});
