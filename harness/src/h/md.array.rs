// Arrays: reading through the members, assembly from devices.
use super::*;
use crate::md::algorithm::MdAlgorithm;
use crate::md::device::device::verif::{role, with_superblock, without_superblock, MockSb};
use crate::md::superblock::MdDeviceRole;
use crate::md::units::*;
use crate::sym::*;

/// A member of `count` sectors. The sector `at` holds `bytes` at its first three places, and so do
/// their neighbours, with other bytes; every other byte is zero.
struct Member {
    count: u64,
    at: u64,
    bytes: [u8; 3],
    pos: u64,
}
impl Clone for Member {
    fn clone(&self) -> Self {
        Self { count: self.count, at: self.at, bytes: self.bytes, pos: self.pos }
    }
}
impl BlockDevice for Member {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(512))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.count))
    }
    fn read_block(&mut self, n: BlockNumber, buf: &mut [u8]) -> io::Result<usize> {
        if n.0 >= self.count || buf.len() < 512 {
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        for i in 0..3 {
            buf[i] = if n.0 == self.at { self.bytes[i] } else { !self.bytes[i] };
        }
        Ok(512)
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(self.clone())
    }
}
impl Read for Member {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
}
impl Seek for Member {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
}

/// A RAID6 array of 3 members, left symmetric, chunks of 2 sectors: data is on the member after P
/// and Q.
const CHUNK: u64 = 2;
fn place(s: u64) -> (usize, usize, u64) {
    let stripe = s / CHUNK;
    let p = (2 - stripe % 3) as usize;
    ((p + 2) % 3, p, stripe * CHUNK + s % CHUNK)
}

/// Under the solver, the reading of one member stands for the reading of all (which C04 decides);
/// this says which.
static mut READ: usize = 3;
#[cfg(kani)]
fn read_one<F>(
    _: &MdAlgorithm,
    sector_number: SectorNumber,
    sectors_per_chunk: SectorCount<u32>,
    raid_device_count: DeviceCount,
    mut read: F,
) -> io::Result<Vec<u8>>
where
    F: FnMut(DeviceNumber, SectorNumber, &mut [u8]) -> io::Result<usize>,
{
    assert!(sectors_per_chunk.0 == 2, "chunk");
    assert!(raid_device_count.0 == 3, "device count");
    let mut buf = Vec::with_capacity(512);
    unsafe { buf.set_len(512) };
    let n = read(DeviceNumber(unsafe { READ } as u32), SectorNumber(place(sector_number.0).2), &mut buf)?;
    assert!(n == 512, "the length of a sector");
    Ok(buf)
}

/// Logical sector `s`. `missing`: a member that is not there; L: the length of the buffer.
fn read_sector<const L: usize>(s: u64, order: [usize; 3], missing: usize, offsets: [u64; 3], counts: [u64; 3]) {
    #[cfg(model)]
    unsafe { crate::vcollections::IN_ORDER = true };
    let (data, p, sector) = place(s);
    let bytes: [u8; 3] = any();
    let q: [u8; 3] = any();
    let mut devices: Vec<MdDevice<Member>> = Vec::with_capacity(3);
    let (mut readable, mut all_readable) = (true, true);
    for k in 0..3 {
        let m = order[k];
        let at = offsets[m] as u128 + sector as u128;
        let there = m != missing && at < counts[m] as u128 && at < 1 << 55;
        all_readable &= there;
        if m == data || m == p {
            readable &= there;
        }
        if m == missing {
            continue;
        }
        let member = Member {
            count: counts[m],
            at: at as u64,
            bytes: if m == data || m == p { bytes } else { q },
            pos: 0,
        };
        let mut roles = Vec::with_capacity(3);
        for i in 0..3 {
            roles.push(role(i));
        }
        devices.push(with_superblock(member, Some(MockSb {
            algorithm: MdAlgorithm::from_level_and_layout(6, 2),
            sectors_per_device: 1 << 20,
            chunk: CHUNK as u32,
            raid_devices: 3,
            data_offset: offsets[m],
            index: m,
            roles,
            ..MockSb::default()
        })));
    }
    let mut array = MdArray::open(devices);
    let mut buf = [0xaau8; L];
    let got = drop_err(array.read_block(BlockNumber(s), &mut buf));
    match got {
        Some(n) => {
            assert!(n == 512 && L >= 512, "the length of a sector");
            if unsafe { READ } < 3 {
                // only one member was looked at
                let m = unsafe { READ };
                assert!(m != missing && offsets[m] as u128 + (sector as u128) < counts[m].min(1 << 55) as u128, "a sector out of nothing");
                for i in 0..3 {
                    assert!(m != data && m != p || buf[i] == bytes[i], "another sector");
                }
            } else {
                assert!(readable, "a sector out of nothing");
                for i in 0..3 {
                    assert!(buf[i] == bytes[i], "another sector");
                }
                assert!(buf[511] == 0, "the end of the sector");
            }
            if L > 512 {
                assert!(buf[L - 1] == 0xaa, "the rest of the buffer is written");
            }
            cover!(true, "a sector is read");
        }
        None => {
            assert!(L < 512 || !all_readable, "a readable sector is refused");
            if L >= 512 {
                assert!(buf[0] == 0xaa && buf[511] == 0xaa, "data without a successful read");
            }
            cover!(true, "a sector is refused");
        }
    }
    std::mem::forget(array);
}
/// `read_exact` of a member's stream, of whole blocks only (C14 decides it in general).
#[cfg(kani)]
fn read_exact_aligned<R: Read + ?Sized>(this: &mut R, buf: &mut [u8]) -> io::Result<()> {
    type Reader = BlockDeviceReader<MdDevice<Member>>;
    assert!(size_of_val(this) == size_of::<Reader>(), "the stream of a member");
    let this = unsafe { &mut *(this as *mut R as *mut Reader) };
    let wanted = buf.len();
    if crate::block_device::reader::verif::read_aligned(this, buf)? == wanted {
        Ok(())
    } else {
        Err(io::Error::from(io::ErrorKind::UnexpectedEof))
    }
}
macro_rules! h_array {
    ($name:ident, $unwind:tt, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::stub(std::alloc::dealloc, no_dealloc),
            kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error),
            kani::stub(MdAlgorithm::read_sector, read_one),
            kani::stub(alloc::io::default_read_exact, read_exact_aligned))]
        pub fn $name() {
            #[cfg(kani)]
            unsafe { READ = 0 };
            $body
        }
    };
}
// every data offset and size of the members
h_array!(p05_data, 8, {
    #[cfg(kani)]
    unsafe { READ = place(5).0 };
    read_sector::<512>(5, [2, 0, 1], 3, any(), any())
});
h_array!(p05_data_0, 8, {
    #[cfg(kani)]
    unsafe { READ = place(0).0 };
    read_sector::<600>(0, [0, 1, 2], 3, any(), any())
});
h_array!(p05_p, 8, {
    #[cfg(kani)]
    unsafe { READ = place(7).1 };
    read_sector::<513>(7, [1, 2, 0], 3, any(), any())
});
h_array!(p05_missing, 8, {
    #[cfg(kani)]
    unsafe { READ = place(9).0 };
    read_sector::<512>(9, [1, 2, 0], place(9).0, any(), any())
});
h_array!(p05_missing_other, 8, {
    #[cfg(kani)]
    unsafe { READ = place(9).0 };
    read_sector::<512>(9, [1, 2, 0], place(9).1, any(), any())
});
h_array!(p05_short_buffer, 8, {
    #[cfg(kani)]
    unsafe { READ = place(5).0 };
    read_sector::<511>(5, [2, 0, 1], 3, any(), any())
});
// the members themselves, parity included
macro_rules! h_whole {
    ($name:ident, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(520), kani::stub(std::alloc::dealloc, no_dealloc),
            kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error),
            kani::stub(alloc::io::default_read_exact, read_exact_aligned))]
        pub fn $name() $body
    };
}
h_whole!(p05_whole, { read_sector::<512>(5, [2, 0, 1], 3, [0, 8, 3], [100; 3]) });

// ---- capacity of an array ----
fn with(sb: MockSb) -> MdDevice<Member> {
    with_superblock(Member { count: 0, at: 0, bytes: [0; 3], pos: 0 }, Some(sb))
}
macro_rules! h_devices {
    ($name:ident, $unwind:tt, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::stub(std::alloc::dealloc, no_dealloc),
            kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error),
            kani::stub(alloc::rc::RcInnerPtr::inc_strong, crate::sym::Uncounted::inc_strong),
            kani::stub(alloc::rc::RcInnerPtr::dec_strong, crate::sym::Uncounted::dec_strong),
            kani::stub(alloc::rc::RcInnerPtr::strong, crate::sym::Uncounted::strong))]
        pub fn $name() $body
    };
}
h_devices!(p06_array, 8, {
    #[cfg(model)]
    unsafe { crate::vcollections::IN_ORDER = true };
    let sectors: u64 = any();
    let other: u64 = any();
    let mut devices = Vec::with_capacity(2);
    for i in 0..2 {
        devices.push(with(MockSb {
            sectors_per_device: if i == 0 { sectors } else { other },
            chunk: 8,
            raid_devices: 4,
            index: i,
            ..MockSb::default()
        }));
    }
    let array = MdArray::open(devices);
    match drop_err(array.block_count()) {
        Some(count) => {
            assert!(sectors == other, "members of different sizes");
            assert!(count.0 as u128 == sectors as u128 / 8 * 8 * 2, "capacity");
            cover!(count.0 > 0, "a capacity");
        }
        None => assert!(sectors != other || sectors / 8 * 8 > u64::MAX / 2, "a capacity"),
    }
    std::mem::forget(array);
});

// ---- assembly ----
/// N devices with the given role tables and indices; the expectation does not depend on their order.
fn assemble<const N: usize, const R: usize>(lens: [usize; N]) {
    let mut table = [[0u32; R]; N];
    let mut index = [0usize; N];
    let mut devices = Vec::with_capacity(N);
    for m in 0..N {
        let mut roles = Vec::with_capacity(R);
        for k in 0..lens[m] {
            table[m][k] = any();
            roles.push(role(table[m][k]));
        }
        index[m] = any();
        devices.push(Rc::new(with(MockSb { index: index[m], roles, ..MockSb::default() })));
    }
    let mut ids = Vec::with_capacity(N);
    for m in 0..N {
        ids.push(devices[m].id.clone());
    }

    // what is known of each role
    let mut known = [None; R];
    let mut conflict = false;
    for k in 0..R {
        for m in 0..N {
            if k < lens[m] {
                let v = table[m][k];
                // positions and the journal; spare, faulty and unassigned entries say nothing
                if v <= 0xfeff || v == 0xfffd {
                    match known[k] {
                        None => known[k] = Some(v),
                        Some(w) => conflict |= v != w,
                    }
                }
            }
        }
    }
    let mut number = [None; N];
    for m in 0..N {
        for k in 0..R {
            if !conflict && index[m] == k {
                number[m] = match known[k] {
                    Some(v) if v <= 0xfeff => Some(v),
                    _ => None,
                };
            }
        }
    }
    let array = MdArray::open(devices);
    let definition = &array.definition;
    let mut active_count = 0;
    for m in 0..N {
        let mut alone = true;
        for o in 0..N {
            alone &= o == m || number[o] != number[m];
        }
        let active = number[m].is_some() && alone;
        active_count += active as usize;
        let mut set_aside = 0;
        for i in 0..N {
            if i < definition.inactive_devices.len() && Rc::ptr_eq(&definition.inactive_devices[i].id, &ids[m]) {
                set_aside += 1;
            }
        }
        assert!(set_aside == !active as usize, "which devices are set aside");
        if active {
            match definition.devices.get(&DeviceNumber(number[m].unwrap_or(0))) {
                Some(d) => assert!(Rc::ptr_eq(&d.id, &ids[m]), "another device in this role"),
                None => panic!("a member is left out"),
            }
        }
    }
    assert!(definition.devices.len() == active_count, "members");
    assert!(definition.inactive_devices.len() == N - active_count, "devices set aside");
    cover!(conflict, "conflict");
    cover!(active_count == N, "all active");
    cover!(active_count == 0 && !conflict, "none active");
    std::mem::forget(array);
}
