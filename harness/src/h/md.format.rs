// Capacity and geometry.
use super::*;
use crate::md::device::device::verif::MockSb;
use crate::md::superblock::ReshapeStatus;
use crate::md::units::*;
use crate::sym::*;

fn format(level: u32, layout: u32, n: u32, sectors: u64, chunk: u32) -> MdFormat {
    MdFormat {
        algorithm: MdAlgorithm::from_level_and_layout(level, layout),
        device_count: DeviceCount(n),
        sectors_per_device: SectorCount(sectors),
        chunk_size: SectorCount(chunk),
    }
}

/// Every member size is q * C + r for exactly one (q, r).
fn capacity(level: u32, n: u32, chunk: u32) {
    let q: u64 = any();
    let r: u32 = any();
    assume(r < chunk);
    let c = chunk as u64;
    assume(q <= u64::MAX / c);
    let whole = q * c;
    assume(whole <= u64::MAX - r as u64);
    let got = format(level, 2, n, whole + r as u64, chunk).data_sector_count();
    let parity = match level {
        5 => 1,
        6 => 2,
        _ => {
            assert!(got.is_none(), "a level without a known capacity");
            return;
        }
    };
    if n < parity {
        assert!(got.is_none(), "fewer members than parity");
        return;
    }
    let expected = whole as u128 * (n - parity) as u128;
    match got {
        Some(s) => assert!(u64::from(s) as u128 == expected, "capacity"),
        None => assert!(expected > u64::MAX as u128, "an array has a capacity"),
    }
    cover!(got.is_some() && r > 0, "a partial chunk");
}
h_proof!(p06_raid6_small, 2, {
    capacity(6, 4, 1);
    capacity(6, 4, 8);
    capacity(6, 5, 128);
});
h_proof!(p06_raid6_large, 2, {
    capacity(6, 7, 1024);
    capacity(6, 27, 1 << 20);
    capacity(6, u32::MAX, 1 << 31);
});
h_proof!(p06_raid5, 2, {
    capacity(5, 3, 8);
    capacity(5, 2, 16);
    capacity(5, 6, 1024);
});
h_proof!(p06_odd_chunk, 2, {
    capacity(6, 6, 24);
});
h_proof!(p06t_odd_chunk, 2, {
    capacity(5, 4, 7);
});
h_proof!(p06t_odd_chunk_large, 2, {
    capacity(6, 9, 1000);
});
h_proof!(p06_degenerate, 2, {
    capacity(6, 2, 8);
    capacity(6, 1, 8);
    capacity(6, 0, 8);
    capacity(5, 1, 8);
    capacity(5, 0, 8);
    capacity(0, 4, 8);
    capacity(1, 4, 8);
    capacity(4, 4, 8);
    capacity(10, 4, 8);
    capacity(u32::MAX, 4, 8);
    // no chunk size
    let (sectors, n): (u64, u32) = (any(), any());
    let raid6: bool = any();
    let f = format(if raid6 { 6 } else { 5 }, 2, n, sectors, 0);
    cover!(n > 4, "no chunk size");
    assert!(f.data_sector_count().is_none(), "no chunk size");
});
h_proof!(p06_unknown_layout, 2, {
    // a layout without a mapping has no capacity
    let layout: u32 = any();
    let sectors: u16 = any();
    let got = format(6, layout, 4, sectors as u64, 8).data_sector_count();
    let known = layout <= 5 || (8..=10).contains(&layout) || (16..=20).contains(&layout);
    assert!(got.is_some() == known);
    let got = format(5, layout, 4, sectors as u64, 8).data_sector_count();
    assert!(got.is_some() == (layout <= 5));
    cover!(got.is_some(), "known layout");
});

// ---- geometry of a superblock, before and after a reshape ----
h_proof!(p13_geometry, 4, {
    let (level, layout, new_level, new_layout): (u8, u8, u8, u8) = (any(), any(), any(), any());
    let (chunk, new_chunk, n, delta): (u32, u32, u32, u32) = (any(), any(), any(), any());
    let (sectors, position, new_offset): (u64, u64, u32) = (any(), any(), any());
    let reshaping: bool = any();
    let sb = MockSb {
        algorithm: MdAlgorithm::from_level_and_layout(level as u32, layout as u32),
        sectors_per_device: sectors,
        chunk,
        raid_devices: n,
        reshape: if reshaping {
            Some(ReshapeStatus {
                new_algorithm: MdAlgorithm::from_level_and_layout(new_level as u32, new_layout as u32),
                reshape_position: SectorNumber(position),
                delta_devices: DeviceCount(delta),
                new_chunk_size: SectorCount(new_chunk),
                new_offset,
            })
        } else {
            None
        },
        ..MockSb::default()
    };
    let sb = MdDeviceSuperblock::Superblock(Box::new(sb));
    let now = MdFormat::from_superblock(&sb);
    let then = MdFormat::from_superblock_reshape_status(&sb);
    let before = n as i64 - if reshaping { delta as i32 as i64 } else { 0 };
    match &now {
        None => assert!(before < 0 || before > u32::MAX as i64, "the current geometry is known"),
        Some(f) => {
            assert!(f.device_count.0 as i64 == before, "current device count");
            assert!(f.sectors_per_device.0 == sectors && f.chunk_size.0 == chunk, "current sizes");
            assert!(f.algorithm == MdAlgorithm::from_level_and_layout(level as u32, layout as u32), "current algorithm");
            cover!(reshaping && (delta as i32) < 0, "shrinking");
            cover!(reshaping && (delta as i32) > 0, "growing");
        }
    }
    match &then {
        None => assert!(!reshaping, "the new geometry is known"),
        Some(f) => {
            assert!(reshaping, "no reshape");
            assert!(f.device_count.0 == n, "new device count");
            assert!(f.sectors_per_device.0 == sectors && f.chunk_size.0 == new_chunk, "new sizes");
            assert!(f.algorithm == MdAlgorithm::from_level_and_layout(new_level as u32, new_layout as u32), "new algorithm");
        }
    }
});
h_proof!(p13_none, 4, {
    assert!(MdFormat::from_superblock(&MdDeviceSuperblock::Missing).is_none());
    assert!(MdFormat::from_superblock(&MdDeviceSuperblock::TooSmall).is_none());
    assert!(MdFormat::from_superblock_reshape_status(&MdDeviceSuperblock::Missing).is_none());
    assert!(MdFormat::from_superblock_reshape_status(&MdDeviceSuperblock::TooSmall).is_none());
});
