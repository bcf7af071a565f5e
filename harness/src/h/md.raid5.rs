use crate::md::raid5::Raid5Algorithm;
use crate::md::raid6::Raid6Algorithm;
use crate::md::units::*;
use crate::sym::*;

// Reference for RAID5: raid5_compute_sector() of the Linux kernel, level 5. `sn` = stripe mod n.
// Returns (data, parity).
pub fn linux5(layout: u32, sn: u32, dd: u32, n: u32) -> Option<(u32, u32)> {
    let wrap = |x: u32| if x >= n { x - n } else { x };
    let skip = |pd: u32| if dd >= pd { dd + 1 } else { dd };
    Some(match layout {
        0 => (skip(n - 1 - sn), n - 1 - sn),         // LEFT_ASYMMETRIC
        1 => (skip(sn), sn),                         // RIGHT_ASYMMETRIC
        2 => (wrap(n - sn + dd), n - 1 - sn),        // LEFT_SYMMETRIC
        3 => (wrap(sn + 1 + dd), sn),                // RIGHT_SYMMETRIC
        4 => (dd + 1, 0),                            // PARITY_0
        5 => (dd, n - 1),                            // PARITY_N
        _ => return None,
    })
}

/// Every logical sector is ((t * N + sn) * (N-1) + dd) * C + o for exactly one (t, sn, dd, o).
fn linux_mapping<const N: u32, const C: u32>(t: u64) {
    let layout: u32 = any();
    let sn: u32 = any();
    let dd: u32 = any();
    let o: u32 = any();
    assume(sn < N && dd < N - 1 && o < C);
    let stripe = t * N as u64 + sn as u64;
    let sector = (stripe * (N - 1) as u64 + dd as u64) * C as u64 + o as u64;
    let got = match Raid5Algorithm::from_layout(layout) {
        Some(a) => a.compute_sector(SectorNumber(sector), SectorCount(C), DeviceCount(N)),
        None => None,
    };
    cover!(got.is_some() && layout == 3, "layout 3 maps");
    match (got, linux5(layout, sn, dd, N)) {
        (Some((s, p, d)), Some((ed, ep))) => {
            assert!(s.0 == stripe * C as u64 + o as u64, "sector on the member");
            assert!(p.0 == ep, "parity device");
            assert!(d.0 == ed, "data device");
            assert!(ep < N && ed < N && ed != ep);
        }
        (None, None) => {}
        (None, Some(_)) => panic!("supported layout not mapped"),
        (Some(_), None) => panic!("unsupported layout mapped"),
    }
}

/// 12 free bits: the low 8 bits of a stripe cycle number, and a multiple of a constant without
/// structure below 2^(bits + 4), so that every bit of the number takes part.
fn t12(bits: u32) -> u64 {
    let lo: u8 = any();
    let hi: u8 = any();
    assume(hi < 16);
    lo as u64 + hi as u64 * (0x9e37_79b9_7f4a_7c15 >> (64 - bits))
}

macro_rules! h_map5 {
    ($name:ident, $n:literal, $c:literal, $t:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(4))]
        pub fn $name() {
            linux_mapping::<$n, $c>($t);
        }
    };
}
h_map5!(p02_n2, 2, 8, t12(52));
h_map5!(p02_n3, 3, 128, t12(48));
h_map5!(p02_n4, 4, 1024, t12(44));
h_map5!(p02_n5, 5, 16, t12(50));
h_map5!(p02_n6, 6, 128, t12(44));
h_map5!(p02_n7, 7, 1024, t12(40));
h_map5!(p02_n9, 9, 64, t12(40));
h_map5!(p02t_n3, 3, 24, any::<u32>() as u64);
h_map5!(p02t_n4, 4, 8, any::<u32>() as u64);
h_map5!(p02t_n5, 5, 1024, any::<u32>() as u64);
h_map5!(p02t_n8, 8, 256, t12(40));
h_map5!(p02t_n10, 10, 1024, t12(40));
h_map5!(p02t_n12, 12, 128, t12(40));
h_map5!(p02t_n16, 16, 4096, t12(34));

#[cfg_attr(kani, kani::proof, kani::unwind(4))]
pub fn p02_degenerate() {
    let layout: u32 = any();
    let sector: u64 = any();
    let chunk: u32 = any();
    let n: u32 = any();
    assume(n < 2 || chunk == 0);
    if n < 2 {
        assume(chunk == 0 || chunk == 8 || chunk == u32::MAX);
    } else {
        assume(n == 2 || n == 8 || n == u32::MAX);
    }
    let Some(a) = Raid5Algorithm::from_layout(layout) else { return };
    cover!(n == 1 && chunk == 8, "one device");
    assert!(a.compute_sector(SectorNumber(sector), SectorCount(chunk), DeviceCount(n)).is_none());
}

// ---- no two logical sectors share a place; parity never overlaps data ----
fn injective6<const N: u32, const C: u32>(base: u64) {
    let layout: u32 = any();
    let a: u16 = any();
    let b: u16 = any();
    assume(a != b);
    let Some(alg) = Raid6Algorithm::from_layout(layout) else { return };
    let x = alg.compute_sector(SectorNumber(base + a as u64), SectorCount(C), DeviceCount(N));
    let y = alg.compute_sector(SectorNumber(base + b as u64), SectorCount(C), DeviceCount(N));
    let (Some((sx, px, qx, dx)), Some((sy, py, qy, dy))) = (x, y) else { panic!("not mapped") };
    assert!(px.0 < N && qx.0 < N && dx.0 < N);
    assert!(px != qx && dx != px && dx != qx, "data, P and Q are on three devices");
    cover!(sx == sy, "two sectors of one row");
    if sx == sy {
        assert!(dx != dy, "two sectors share a place");
        assert!(px == py && qx == qy, "one row has one P and one Q");
    }
}
fn injective5<const N: u32, const C: u32>(base: u64) {
    let layout: u32 = any();
    let a: u16 = any();
    let b: u16 = any();
    assume(a != b);
    let Some(alg) = Raid5Algorithm::from_layout(layout) else { return };
    let x = alg.compute_sector(SectorNumber(base + a as u64), SectorCount(C), DeviceCount(N));
    let y = alg.compute_sector(SectorNumber(base + b as u64), SectorCount(C), DeviceCount(N));
    let (Some((sx, px, dx)), Some((sy, py, dy))) = (x, y) else { panic!("not mapped") };
    assert!(px.0 < N && dx.0 < N);
    assert!(dx != px, "data and parity are on two devices");
    cover!(N > 2 && sx == sy, "two sectors of one row");
    if sx == sy {
        assert!(dx != dy, "two sectors share a place");
        assert!(px == py, "one row has one parity");
    }
}
macro_rules! h_inj {
    ($name:ident, $f:ident, $n:literal, $c:literal, $base:expr) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(4))]
        pub fn $name() {
            $f::<$n, $c>($base);
        }
    };
}
h_inj!(p03_r6_n4, injective6, 4, 8, 0);
h_inj!(p03_r6_n5, injective6, 5, 128, 0);
h_inj!(p03_r6_n6, injective6, 6, 16, 1 << 40);
h_inj!(p03_r6_n8, injective6, 8, 1024, 1 << 36);
h_inj!(p03_r5_n3, injective5, 3, 8, 0);
h_inj!(p03_r5_n4, injective5, 4, 1024, 1 << 40);
h_inj!(p03_r5_n5, injective5, 5, 128, 0);
h_inj!(p03_r5_n7, injective5, 7, 16, 1 << 33);
h_inj!(p03t_r6_n7, injective6, 7, 64, 1 << 44);
h_inj!(p03t_r6_n10, injective6, 10, 128, 0);
h_inj!(p03t_r6_n12, injective6, 12, 1024, 1 << 38);
h_inj!(p03t_r5_n6, injective5, 6, 64, 1 << 45);
h_inj!(p03t_r5_n8, injective5, 8, 1024, 0);
h_inj!(p03t_r5_n12, injective5, 12, 128, 1 << 40);
