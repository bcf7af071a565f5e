// Mock superblocks and devices, and the superblock probe.
use super::*;
use crate::md::algorithm::MdAlgorithm;
use crate::md::superblock::{ArrayUuid, MdDeviceRole, ReshapeStatus, Superblock};
use crate::md::units::*;
use crate::sym::*;
use std::ffi::OsString;

/// A superblock with whatever the harness wants in it.
#[derive(Clone)]
pub struct MockSb {
    pub uuid: [u8; 16],
    pub name: Option<OsString>,
    pub algorithm: MdAlgorithm,
    pub sectors_per_device: u64,
    pub chunk: u32,
    pub raid_devices: u32,
    pub reshape: Option<ReshapeStatus>,
    pub data_offset: u64,
    pub index: usize,
    pub events: u64,
    pub roles: Vec<MdDeviceRole>,
}

impl Default for MockSb {
    fn default() -> Self {
        Self {
            uuid: [0; 16],
            name: None,
            algorithm: MdAlgorithm::from_level_and_layout(6, 2),
            sectors_per_device: 64,
            chunk: 8,
            raid_devices: 4,
            reshape: None,
            data_offset: 0,
            index: 0,
            events: 0,
            roles: Vec::new(),
        }
    }
}

impl Superblock for MockSb {
    fn valid(&self) -> bool {
        true
    }
    fn major_version(&self) -> u32 {
        1
    }
    fn minor_version(&self) -> u32 {
        2
    }
    fn array_uuid(&self) -> ArrayUuid {
        ArrayUuid::from_u8_16(&self.uuid)
    }
    fn array_name(&self) -> Option<&OsStr> {
        self.name.as_deref()
    }
    fn algorithm(&self) -> MdAlgorithm {
        self.algorithm.clone()
    }
    fn sectors_per_device(&self) -> SectorCount<u64> {
        SectorCount(self.sectors_per_device)
    }
    fn chunk_size(&self) -> SectorCount<u32> {
        SectorCount(self.chunk)
    }
    fn raid_device_count(&self) -> DeviceCount {
        DeviceCount(self.raid_devices)
    }
    fn reshape_status(&self) -> Option<ReshapeStatus> {
        self.reshape.clone()
    }
    fn data_offset(&self) -> SectorNumber {
        SectorNumber(self.data_offset)
    }
    fn device_role_index(&self) -> usize {
        self.index
    }
    fn event_count(&self) -> MetadataEventCount {
        MetadataEventCount(self.events)
    }
    fn device_roles(&self) -> Vec<MdDeviceRole> {
        self.roles.clone()
    }
}

pub fn role(v: u32) -> MdDeviceRole {
    match <MdDeviceRole as binary_layout::LayoutAs<u32>>::try_read(v) {
        Ok(r) => r,
        Err(_) => panic!(),
    }
}

pub fn with_superblock<D: BlockDevice + Read + Seek>(device: D, sb: Option<MockSb>) -> MdDevice<D> {
    MdDevice {
        id: Rc::new(MdDeviceId::new(None::<&OsStr>)),
        superblock: Rc::new(match sb {
            Some(sb) => MdDeviceSuperblock::Superblock(Box::new(sb)),
            None => MdDeviceSuperblock::Missing,
        }),
        device,
    }
}

pub fn without_superblock<D: BlockDevice + Read + Seek>(device: D, too_small: bool) -> MdDevice<D> {
    MdDevice {
        id: Rc::new(MdDeviceId::new(None::<&OsStr>)),
        superblock: Rc::new(if too_small { MdDeviceSuperblock::TooSmall } else { MdDeviceSuperblock::Missing }),
        device,
    }
}

/// A device that holds nothing.
#[derive(Clone)]
pub struct NoDev;
impl BlockDevice for NoDev {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(512))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(0))
    }
    fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
    fn try_clone(&self) -> io::Result<Self> {
        Ok(Self)
    }
}
impl Read for NoDev {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
}
impl Seek for NoDev {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
}

/// A device of which every read of 4096 bytes is answered from `spots`, in order: with nothing but
/// zeros (0), a superblock of the version expected there in little (1) or big (2) endian, or a
/// failure (3). It records where it was read.
struct ProbeDev {
    sectors: u64,
    pos: u64,
    spots: [u8; 4],
    marks: [u8; 4],
    log: Rc<std::cell::Cell<([u64; 4], usize, bool)>>,
}
impl BlockDevice for ProbeDev {
    fn block_size(&self) -> io::Result<BlockSize> {
        Ok(BlockSize(512))
    }
    fn block_count(&self) -> io::Result<BlockCount> {
        Ok(BlockCount(self.sectors))
    }
    fn read_block(&mut self, _: BlockNumber, _: &mut [u8]) -> io::Result<usize> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
    fn try_clone(&self) -> io::Result<Self> {
        Err(io::Error::from(io::ErrorKind::Other))
    }
}
impl Read for ProbeDev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len();
        self.read_exact(buf)?;
        Ok(n)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let (mut at, k, mut bad) = self.log.get();
        bad |= k >= 4 || buf.len() != 4096;
        if k < 4 {
            at[k] = self.pos;
        }
        self.log.set((at, k + 1, bad));
        self.pos += buf.len() as u64;
        if k >= 4 || buf.len() < 4096 || self.spots[k] == 3 {
            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
        }
        if self.spots[k] != 0 {
            let major = (k < 3) as u8;
            let bytes = if self.spots[k] == 1 {
                [0xfc, 0x4e, 0x2b, 0xa9, major, 0, 0, 0]
            } else {
                [0xa9, 0x2b, 0x4e, 0xfc, 0, 0, 0, major]
            };
            for i in 0..8 {
                buf[i] = bytes[i];
            }
            // the role index of version 1
            buf[160] = self.marks[k];
        }
        Ok(())
    }
}
impl Seek for ProbeDev {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        match pos {
            SeekFrom::Start(p) => self.pos = p,
            _ => return Err(io::Error::from(io::ErrorKind::Other)),
        }
        Ok(self.pos)
    }
}

fn probe(spots: [u8; 4], least: u64) {
    // every number of sectors (at least `least`) whose bytes fit in 64 bits
    let sectors: u64 = any();
    assume(sectors >= least && sectors < 1 << 55);
    let marks: [u8; 4] = any();
    // Where Linux puts them: 1.2 at 4 KiB; 1.1 at the start; 1.0 at 16 sectors before the end,
    // rounded down to 8; 0.90 at the last but one multiple of 128 sectors.
    let at = [
        4096,
        0,
        if sectors >= 24 { (sectors - 16) / 8 * 8 * 512 } else { 0 },
        if sectors >= 128 { (sectors / 128 * 128 - 128) * 512 } else { 0 },
    ];
    let log = Rc::new(std::cell::Cell::new(([0; 4], 0, false)));
    let device = ProbeDev { sectors, pos: 7, spots, marks, log: log.clone() };
    let places = if sectors < 24 { 0 } else if sectors < 128 { 3 } else { 4 };
    let mut expected = 4;
    for i in (0..4).rev() {
        if spots[i] == 1 || (spots[i] == 2 && i == 3) {
            expected = i;
        }
    }
    let device = drop_err(MdDevice::from_block_device(device, None::<&OsStr>));
    let (read, count, bad) = log.get();
    assert!(!bad, "something other than whole superblocks is read");
    for i in 0..4 {
        assert!(i >= count || read[i] == at[i], "a superblock is looked for at a wrong place");
    }
    match device {
        None => panic!("the probe fails"),
        Some(device) => {
            match device.superblock.as_ref() {
                MdDeviceSuperblock::TooSmall => {
                    assert!(sectors < 24, "the device is not too small");
                    cover!(true, "too small");
                }
                MdDeviceSuperblock::Missing => {
                    assert!(sectors >= 24, "the device is too small");
                    assert!(expected >= places, "a superblock is overlooked");
                    assert!(count == places, "a place is left out");
                    cover!(count == 4, "missing");
                }
                MdDeviceSuperblock::Superblock(sb) => {
                    assert!(sectors >= 24, "the device is too small");
                    assert!(expected < places, "a superblock out of nothing");
                    assert!(count == expected + 1, "a place is left out");
                    let (major, minor) = [(1, 2), (1, 1), (1, 0), (0, 0)][expected];
                    assert!(sb.major_version() == major, "superblock of another place");
                    assert!(sb.minor_version() == minor, "superblock of another place");
                    if major == 1 {
                        assert!(sb.device_role_index() == marks[expected] as usize, "contents of another place");
                    }
                    cover!(true, "found");
                }
            }
            std::mem::forget(device);
        }
    }
}
macro_rules! h_probe {
    ($name:ident, $least:literal, $a:literal, $b:literal, $c:literal, $d:literal) => {
        #[cfg_attr(kani, kani::proof, kani::unwind(30), kani::stub(std::alloc::dealloc, no_dealloc), kani::stub(<core::io::CustomOwner as std::ops::Drop>::drop, keep_error))]
        pub fn $name() {
            probe([$a, $b, $c, $d], $least);
        }
    };
}
h_probe!(p09_none, 0, 0, 0, 0, 0);
h_probe!(p09_all, 24, 1, 1, 1, 1);
h_probe!(p09_not_12, 24, 0, 1, 1, 1);
h_probe!(p09_fail_12, 24, 3, 1, 0, 1);
h_probe!(p09_only_10, 24, 0, 0, 1, 0);
h_probe!(p09_10_and_0, 24, 0, 3, 1, 1);
h_probe!(p09_only_0, 128, 0, 0, 0, 1);
h_probe!(p09_only_0_big, 128, 0, 0, 3, 2);
h_probe!(p09_big_1, 0, 2, 2, 2, 0);
h_probe!(p09_all_fail, 0, 3, 3, 3, 3);
