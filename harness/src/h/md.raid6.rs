use crate::md::raid6::Raid6Algorithm;
use crate::md::units::*;
use crate::sym::*;

// Reference for RAID6: raid5_compute_sector() of the Linux kernel (drivers/md/raid5.c), level 6.
// The stripe number enters only through its remainders: `sn` = stripe mod n,
// `sn1` = stripe mod (n - 1). Returns (data, P, Q) device numbers.
pub fn linux6(layout: u32, sn: u32, sn1: u32, dd: u32, n: u32) -> Option<(u32, u32, u32)> {
    let next = if sn + 1 == n { 0 } else { sn + 1 }; // (stripe + 1) mod n
    let rotate = |pd: u32, dd: u32| {
        if pd == n - 1 {
            (dd + 1, pd, 0)
        } else if dd >= pd {
            (dd + 2, pd, pd + 1)
        } else {
            (dd, pd, pd + 1)
        }
    };
    let wrap = |x: u32, m: u32| if x >= m { x - m } else { x };
    Some(match layout {
        0 => rotate(n - 1 - sn, dd),              // LEFT_ASYMMETRIC
        1 => rotate(sn, dd),                      // RIGHT_ASYMMETRIC
        2 => {
            let pd = n - 1 - sn;                  // LEFT_SYMMETRIC
            (wrap(wrap(pd + 2, n) + dd, n), pd, wrap(pd + 1, n))
        }
        3 => {
            let pd = sn;                          // RIGHT_SYMMETRIC
            (wrap(wrap(pd + 2, n) + dd, n), pd, wrap(pd + 1, n))
        }
        4 => (dd + 2, 0, 1),                      // PARITY_0
        5 => (dd, n - 2, n - 1),                  // PARITY_N
        8 => rotate(sn, dd),                      // ROTATING_ZERO_RESTART
        9 => rotate(n - 1 - next, dd),            // ROTATING_N_RESTART
        10 => {
            let pd = n - 1 - sn;                  // ROTATING_N_CONTINUE
            (wrap(pd + 1 + dd, n), pd, wrap(pd + n - 1, n))
        }
        16 => {
            let pd = n - 2 - sn1;                 // LEFT_ASYMMETRIC_6
            (if dd >= pd { dd + 1 } else { dd }, pd, n - 1)
        }
        17 => {
            let pd = sn1;                         // RIGHT_ASYMMETRIC_6
            (if dd >= pd { dd + 1 } else { dd }, pd, n - 1)
        }
        18 => {
            let pd = n - 2 - sn1;                 // LEFT_SYMMETRIC_6
            (wrap(pd + 1 + dd, n - 1), pd, n - 1)
        }
        19 => {
            let pd = sn1;                         // RIGHT_SYMMETRIC_6
            (wrap(pd + 1 + dd, n - 1), pd, n - 1)
        }
        20 => (dd + 1, 0, n - 1),                 // PARITY_0_6
        _ => return None,
    })
}

/// Every logical sector is ((t * N*(N-1) + w) * (N-2) + dd) * C + o for exactly one (t, w, dd, o).
fn linux_mapping<const N: u32, const C: u32>(t: u64) {
    let layout: u32 = any();
    let w: u16 = any();
    let dd: u32 = any();
    let o: u32 = any();
    assume((w as u32) < N * (N - 1) && dd < N - 2 && o < C);
    let stripe = t * (N * (N - 1)) as u64 + w as u64;
    let sector = (stripe * (N - 2) as u64 + dd as u64) * C as u64 + o as u64;
    let got = match Raid6Algorithm::from_layout(layout) {
        Some(a) => a.compute_sector(SectorNumber(sector), SectorCount(C), DeviceCount(N)),
        None => None,
    };
    let sn = (w % N as u16) as u32;
    let sn1 = (w % (N as u16 - 1)) as u32;
    cover!(got.is_some() && layout == 18, "layout 18 maps");
    match (got, linux6(layout, sn, sn1, dd, N)) {
        (Some((s, p, q, d)), Some((ed, ep, eq))) => {
            assert!(s.0 == stripe * C as u64 + o as u64, "sector on the member");
            assert!(p.0 == ep, "P device");
            assert!(q.0 == eq, "Q device");
            assert!(d.0 == ed, "data device");
            assert!(ep < N && eq < N && ed < N && ep != eq && ed != ep && ed != eq);
        }
        (None, None) => {}
        (None, Some(_)) => panic!("supported layout not mapped"),
        (Some(_), None) => panic!("unsupported layout mapped"),
    }
}

/// 12 free bits: the low 8 bits of a stripe cycle number, and a multiple of a constant without
/// structure below 2^(bits + 4), so that every bit of the number takes part.
fn t12(bits: u32) -> u64 {
    let lo: u8 = any();
    let hi: u8 = any();
    assume(hi < 16);
    lo as u64 + hi as u64 * (0x9e37_79b9_7f4a_7c15 >> (64 - bits))
}

macro_rules! h_map6 {
    ($name:ident, $n:literal, $c:literal, $t:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(4))]
        pub fn $name() {
            linux_mapping::<$n, $c>($t);
        }
    };
}
h_map6!(p01_n4, 4, 128, t12(45));
h_map6!(p01_n5, 5, 8, t12(48));
h_map6!(p01_n6, 6, 1024, t12(40));
h_map6!(p01_n7, 7, 16, t12(44));
h_map6!(p01_n8, 8, 1024, t12(36));
h_map6!(p01_n9, 9, 64, t12(38));
h_map6!(p01_n12, 12, 128, t12(36));

// ---- thorough: more member counts and chunk sizes, and 32 bits of t ----
h_map6!(p01t_n3, 3, 8, any::<u32>() as u64);
h_map6!(p01t_n4, 4, 24, any::<u32>() as u64);
h_map6!(p01t_n5, 5, 1024, any::<u32>() as u64);
h_map6!(p01t_n6, 6, 8, any::<u32>() as u64);
h_map6!(p01t_n10, 10, 1024, t12(36));
h_map6!(p01t_n11, 11, 256, t12(36));
h_map6!(p01t_n13, 13, 32, t12(36));
h_map6!(p01t_n16, 16, 4096, t12(30));
h_map6!(p01t_n24, 24, 1024, t12(30));

#[cfg_attr(kani, kani::proof, kani::unwind(4))]
pub fn p01_degenerate() {
    // impossible geometry never yields a location, and never panics
    let layout: u32 = any();
    let sector: u64 = any();
    let chunk: u32 = any();
    let n: u32 = any();
    assume(n < 3 || chunk == 0);
    if n < 3 {
        assume(chunk == 0 || chunk == 8 || chunk == u32::MAX);
    } else {
        assume(n == 3 || n == 8 || n == u32::MAX);
    }
    let Some(a) = Raid6Algorithm::from_layout(layout) else { return };
    cover!(n == 2 && chunk == 8, "two devices");
    assert!(a.compute_sector(SectorNumber(sector), SectorCount(chunk), DeviceCount(n)).is_none());
}
