use crate::md::algorithm::MdAlgorithm;
use crate::md::raid6::verif::linux6;
use crate::md::units::*;
use crate::sym::*;
use std::io;

/// Positions of a sector whose bytes are solver variables on every member; the others are zero.
const AT: [usize; 3] = [0, 300, 511];

// Member `fail` (99: none) fails to read, `short` (99: none) reads short.
fn raid6_read<const N: usize>(layout: u32, sector: u64, fail: u32, short: u32) {
    let special: [[u8; 3]; N] = any();
    let c = 8u64;
    let n = N as u64;
    let chunk = sector / c;
    let (stripe, dd) = (chunk / (n - 2), chunk % (n - 2));
    let expected = stripe * c + sector % c;
    let Some((d, p, q)) = linux6(layout, (stripe % n) as u32, (stripe % (n - 1)) as u32, dd as u32, N as u32) else { panic!() };
    let (d, p, q) = (d as usize, p as usize, q as usize);
    let alg = MdAlgorithm::from_level_and_layout(6, layout);
    let mut wrong_sector = false;
    let mut wrong_device = false;
    let mut wrong_length = false;
    let result = alg.read_sector(
        SectorNumber(sector),
        SectorCount(c as u32),
        DeviceCount(N as u32),
        |device: DeviceNumber, s: SectorNumber, buf: &mut [u8]| {
            wrong_sector |= s.0 != expected;
            wrong_device |= device.0 as usize >= N;
            wrong_length |= buf.len() < 512;
            let k = device.0 as usize;
            if k >= N || buf.len() < 512 || device.0 == fail {
                return Err(io::Error::from(io::ErrorKind::Other));
            }
            buf[AT[0]] = special[k][0];
            buf[AT[1]] = special[k][1];
            buf[AT[2]] = special[k][2];
            Ok(if device.0 == short { 511 } else { 512 })
        },
    );
    assert!(!wrong_sector, "every member is read at the row of the logical sector");
    assert!(!wrong_device && !wrong_length);
    let mut consistent = true;
    for i in 0..3 {
        let mut x = 0;
        for k in 0..N {
            if k != q {
                x ^= special[k][i];
            }
        }
        consistent &= x == 0;
    }
    match drop_err(result) {
        Some(data) => {
            assert!(data.len() == 512);
            assert!(data[AT[0]] == special[d][0] && data[AT[1]] == special[d][1] && data[AT[2]] == special[d][2], "data of the data member");
            assert!(consistent, "data returned although P does not match");
            assert!(fail as usize != d && short as usize != d, "data returned although its member could not be read");
            cover!(true, "read");
        }
        None => {
            assert!(!(fail == 99 && short == 99 && consistent), "a consistent stripe is not readable");
            cover!(true, "refused");
        }
    }
}

macro_rules! h_read6 {
    ($name:ident, $n:literal, $layout:literal, $sector:literal, $fail:literal, $short:literal) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(516), kani::stub(std::alloc::dealloc, no_dealloc), kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error))]
        pub fn $name() {
            raid6_read::<$n>($layout, $sector, $fail, $short);
        }
    };
}
h_read6!(p04_a, 4, 2, 9, 99, 99);
h_read6!(p04_fail_data, 4, 2, 9, 2, 99);
h_read6!(p04_fail_p, 4, 2, 9, 3, 99);
h_read6!(p04_short_data, 4, 5, 35, 99, 1);
h_read6!(p04_short_p, 5, 18, 100, 99, 2);
h_read6!(p04t_n3, 3, 0, 21, 99, 99);
h_read6!(p04t_n5, 5, 2, 9, 99, 99);
h_read6!(p04t_parity_0, 4, 4, 21, 99, 99);
h_read6!(p04t_continue, 4, 10, 37, 99, 99);
h_read6!(p04t_q_last, 5, 17, 61, 99, 99);

// A level whose stripes are not checked is not read at all; if RAID5 is read one day, then with the same care.
fn other_read(level: u32, layout: u32) {
    let sector: u16 = any();
    let bytes: [u8; 3] = any();
    let alg = MdAlgorithm::from_level_and_layout(level, layout);
    let result = alg.read_sector(SectorNumber(sector as u64), SectorCount(8), DeviceCount(3), |d: DeviceNumber, _: SectorNumber, buf: &mut [u8]| {
        if d.0 >= 3 || buf.len() < 512 {
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        buf[300] = bytes[d.0 as usize];
        Ok(512)
    });
    cover!(true, "read of another level");
    match drop_err(result) {
        None => {}
        Some(data) => {
            assert!(level == 5, "data of a level that cannot be checked");
            assert!(bytes[0] ^ bytes[1] ^ bytes[2] == 0, "data returned although the parity does not match");
            assert!(data.len() == 512);
        }
    }
}
#[cfg_attr(kani, kani::proof, kani::unwind(516), kani::stub(std::alloc::dealloc, no_dealloc), kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error))]
pub fn p04_raid5() {
    other_read(5, 2);
    other_read(5, 0);
}
#[cfg_attr(kani, kani::proof, kani::unwind(516), kani::stub(std::alloc::dealloc, no_dealloc), kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error))]
pub fn p04_other_levels() {
    other_read(0, 0);
    other_read(1, 0);
    other_read(4, 2);
    other_read(10, 0x102);
    other_read(u32::MAX, 2);
    other_read(6, 6);
    other_read(6, 21);
}
