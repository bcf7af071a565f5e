// Version 0 superblocks against struct mdp_superblock_s of Linux, in both byte orders.
use super::*;
use crate::sym::*;

/// The superblock on disk: its first 66 words, and the role of three of the 27 descriptors and the
/// number of this device. Everything else is zero.
struct Disk {
    big: bool,
    words: [u32; 66],
    roles: [u32; 3],
    this: u32,
    short: bool,
}
const SLOTS: [usize; 3] = [0, 2, 26];

impl Disk {
    fn put(&self, buf: &mut [u8], at: usize, w: u32) {
        let b = if self.big { w.to_be_bytes() } else { w.to_le_bytes() };
        for k in 0..4 {
            buf[at + k] = b[k];
        }
    }
    /// 64-bit fields are two words in the byte order of the superblock.
    fn long(&self, word: usize) -> u64 {
        let (a, b) = (self.words[word] as u64, self.words[word + 1] as u64);
        if self.big {
            a << 32 | b
        } else {
            b << 32 | a
        }
    }
}
impl Read for &Disk {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        if self.short || buf.len() != 4096 {
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        for i in 0..66 {
            self.put(buf, 4 * i, self.words[i]);
        }
        for i in 0..3 {
            self.put(buf, 512 + 128 * SLOTS[i] + 12, self.roles[i]);
        }
        self.put(buf, 3968, self.this);
        Ok(())
    }
}

/// A superblock with `count` devices
fn disk(big: bool, count: u32) -> Disk {
    disk_of(big, count, [0; 66])
}
fn disk_of(big: bool, count: u32, mut words: [u32; 66]) -> Disk {
    words[0] = 0xa92b4efc;
    words[1] = 0;
    words[9] = count;
    Disk { big, words, roles: [0, 1, 2], this: 0, short: false }
}
fn read(d: &Disk) -> SuperblockVersion0 {
    match drop_err(SuperblockVersion0::read(d)) {
        Some(s) => s,
        None => panic!("a superblock is refused"),
    }
}

fn scalars(big: bool) {
    let mut d = disk_of(big, 3, any());
    d.this = any();
    let w = d.words;
    let s = read(&d);
    assert!(s.valid());
    assert!(s.major_version() == 0 && s.minor_version() == w[2], "version");
    assert!(s.algorithm() == MdAlgorithm::from_level_and_layout(w[7], w[64]), "algorithm");
    assert!(s.sectors_per_device().0 == w[8] as u64 * 2, "size");
    assert!(s.chunk_size().0 == w[65] / 512, "chunk size");
    assert!(s.raid_device_count().0 == w[10], "raid disks");
    assert!(s.event_count().0 == d.long(39), "events");
    assert!(s.data_offset().0 == 0, "data offset");
    assert!(s.device_role_index() == d.this as usize, "this device");
    assert!(s.array_name().is_none(), "name");
    let uuid = if w[2] < 90 {
        ArrayUuid::from_u32(w[5])
    } else {
        ArrayUuid::from_u32_4(&[w[5], w[13], w[14], w[15]])
    };
    assert!(s.array_uuid() == uuid, "uuid");
    match s.reshape_status() {
        None => assert!(w[2] < 91, "the reshape is overlooked"),
        Some(r) => {
            assert!(w[2] >= 91, "a reshape out of nothing");
            assert!(r.new_algorithm == MdAlgorithm::from_level_and_layout(w[46], w[48]), "new algorithm");
            assert!(r.reshape_position.0 == d.long(44), "reshape position");
            assert!(r.delta_devices.0 == w[47], "delta disks");
            assert!(r.new_chunk_size.0 == w[49] / 512, "new chunk size");
            cover!(w[2] == 91, "reshape");
        }
    }
    std::mem::forget(s);
}
h_proof!(p08_scalars_little, 68, { scalars(false) });
h_proof!(p08_scalars_big, 68, { scalars(true) });

/// Symbolic roles; the superblock is valid unless one of the devices in use has an invalid role.
fn roles(big: bool, count: u32) {
    let mut d = disk(big, count);
    d.roles = any();
    let n = count.min(27) as usize;
    let mut valid = true;
    for i in 0..3 {
        valid &= SLOTS[i] >= n || d.roles[i] <= 0xfeff || (d.roles[i] >= 0xfffd && d.roles[i] <= 0xffff);
    }
    let mut buf = [0u8; 4096];
    ok((&mut &d).read_exact(&mut buf));
    let s: SuperblockVersion0 = if big { big_endian::View::new(buf).into() } else { little_endian::View::new(buf).into() };
    assert!(s.valid() == valid, "validity of the roles");
    cover!(valid, "a valid superblock");
    let r = s.device_roles();
    assert!(r.len() == n, "number of roles");
    for i in 0..3 {
        if SLOTS[i] < n {
            let v = d.roles[i];
            let r = &r[SLOTS[i]];
            assert!(r.device_number().map(|d| d.0) == (v <= 0xfeff).then_some(v), "position");
            assert!(r.is_spare() == (v == 0xffff) && r.is_faulty() == (v == 0xfffe), "spare or faulty");
        }
    }
    std::mem::forget(r);
    std::mem::forget(s);
}
h_proof!(p08_roles_little, 68, { roles(false, 3) });
h_proof!(p08_roles_big, 68, { roles(true, 27) });
h_proof!(p08_roles_none, 68, { roles(false, 0) });
h_proof!(p08_roles_many, 68, { roles(true, 0xffff_fffe) });

// Magic and version decide what is taken for a superblock, whatever the byte order.
fn acceptance(big: bool) {
    let mut d = disk(big, 2);
    d.words[0] = any();
    d.words[1] = any();
    // the magic of the other byte order reverses the meaning of everything: not a matter of this harness
    assume(d.words[0] != 0xfc4e2ba9);
    let got = drop_err(SuperblockVersion0::read(&d));
    assert!(got.is_some() == (d.words[0] == 0xa92b4efc && d.words[1] == 0), "what is taken for a superblock");
    cover!(got.is_some(), "accepted");
    std::mem::forget(got);
}
h_proof!(p08_acceptance_little, 68, { acceptance(false) });
h_proof!(p08_acceptance_big, 68, { acceptance(true) });
h_proof!(p08_refused, 68, {
    let mut d = disk(false, 2);
    d.roles[1] = 0xff00;
    d.roles[0] = 0xfffd;
    // the second slot of the disk is the third descriptor, which is not in use
    let got = drop_err(SuperblockVersion0::read(&d));
    assert!(got.is_some(), "an unused descriptor matters");
    std::mem::forget(got);
    d.roles[0] = 0xffffffff;
    assert!(drop_err(SuperblockVersion0::read(&d)).is_none(), "an invalid role");
    d.roles[0] = 0;
    d.short = true;
    assert!(drop_err(SuperblockVersion0::read(&d)).is_none(), "a failure to read");
});
