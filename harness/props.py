"""What each check runs: harness files, bounds, and what is assumed."""

COMMON_ASSUMPTIONS = [
    "Kani's translation of MIR and CBMC's semantics of it are correct; the solver's verdicts are correct",
    "64-bit little-endian target; allocation never fails; every dealloc is sound",
    "std::collections::HashMap/HashSet are modelled as association lists with solver-chosen iteration direction (lawful Hash and Eq)",
]

PROPS = {}


def prop(id, files, bounds, explanation, outside="", assumptions=(), **kw):
    PROPS[id] = dict(files=files.split(), bounds=bounds, explanation=explanation, outside=outside,
                     assumptions=list(assumptions), **kw)


prop("C01", "md.raid6",
     "member counts 4..9 and 12 (all 17 supported layouts, all data positions), chunk sizes as listed in the harnesses, stripe numbers as 8 free low bits plus 4 free bits near 2^56, every sector within a chunk",
     "the sector mapping of the RAID6 layouts is compared, for every logical sector within the bounds, with an independent transcription of the Linux raid5.c mapping")
prop("C02", "md.raid5 md.raid6",
     "as C01 for the RAID5 layouts",
     "the sector mapping of the RAID5 layouts is compared, for every logical sector within the bounds, with an independent transcription of the Linux raid5.c mapping")
prop("C03", "md.raid5 md.raid6", "two arbitrary logical sectors within the bounds of C01",
     "two distinct logical sectors never map to the same member sector; data, P and Q members of a stripe are distinct and exist")
prop("C04", "md.algorithm md.raid6",
     "4 members (thorough: 3 and 5) at sectors with every data position, 3 symbolic byte positions per member sector and every other byte zero; one member failing or short, at any of the positions",
     "a sector read returns the data member's bytes and only when the P parity matches",
     outside="Q is not checked by the code and is not part of the property; contents at more than 3 positions at once",
     cbmc=["--max-field-sensitivity-array-size", "1024"])
prop("C06", "md.format md.device.device md.array block_device.reader",
     "levels 5 and 6 with the chunk sizes and member counts listed in the harnesses (1..2^31 sectors, 0..2^32-1 members), every 64-bit member size; every layout number for N = 4; an array of two members of any sizes",
     "the capacity is compared with the number of whole chunks for every member size",
     cbmc=["--max-field-sensitivity-array-size", "1024"])
prop("C09", "md.device.device",
     "devices of 0..2^55 sectors (symbolic), each of the four places holding nothing, a superblock of either byte order, or failing to read, in the combinations listed in the harnesses",
     "where the probe reads and which superblock it takes, for every device size",
     cbmc=["--max-field-sensitivity-array-size", "4096"])
prop("C10", "md.superblock.role", "every 32-bit role number (and 16-bit, as version 1 stores it)",
     "decoding of a device role against the numbers Linux defines")
prop("C13", "md.format md.device.device", "every level and layout below 256, every count, delta, size and chunk size",
     "the geometry before and after a reshape against Linux's raid_disks/delta_disks arithmetic")
prop("C05", "md.array md.device.device block_device.reader",
     "RAID6 of 3 members in any order, logical sectors 0, 5, 7 and 9, every 64-bit data offset and member size, any member missing, buffers of 511, 512 and longer",
     "an array read is compared with the sector of the member the mapping names, counted from that member's data offset. Under the solver one member's read stands for the parity-checked read of all (C04 decides that); p05_whole runs the whole with concrete offsets and symbolic contents",
     outside="arrays in the middle of a reshape (the code reads them in the new geometry)",
     cbmc=["--max-field-sensitivity-array-size", "1024"])
prop("C14", "block_device.reader",
     "two seeks and two reads, or three reads in a row (thorough: three seeks and reads), any 64-bit position, offset and device size, blocks of 1, 2, 4, 8, 16 and 512 bytes, buffers of 1 to 16 bytes",
     "reads and seeks against the bytes of the blocks at each position")
prop("C15", "block_device.in_memory block_device.file",
     "every 64-bit block number; memory devices of 3 to 21 bytes with blocks of 1 to 8 bytes and buffers from shorter to longer; files of any size below 2^40 with one nonzero byte anywhere",
     "a block read against the contents of the device. Under the solver a file is a stand-in for its seek, read and metadata calls")
prop("C07", "md.superblock.version_1.superblock",
     "every content of the 256 bytes of fixed fields and four roles; every number of roles from 0 to 2^32-1 with room for four; the whole block of 4096 bytes with arbitrary magic and version",
     "each accessor is compared with the little-endian field at its offset in Linux's struct mdp_superblock_1",
     outside="more than four roles at once",
     cbmc=["--max-field-sensitivity-array-size", "4096"])
prop("C08", "md.superblock.version_0.superblock",
     "both byte orders, every content of the first 264 bytes, the roles of the first, third and last descriptors and of this device; 0, 3, 27 and 2^32-2 devices",
     "each accessor is compared with the word of struct mdp_superblock_s in the byte order of the magic",
     cbmc=["--max-field-sensitivity-array-size", "4096"])
prop("C16", "ext4.superblock.superblock", "every content of the 1024 bytes (p16_encryption: of the four bytes it is about)",
     "each accessor is compared with the little-endian field at its offset in Linux's struct ext4_super_block")
prop("C17", "ext4.superblock.superblock", "every content of the 1024 bytes, with any difference between the stored and the right checksum",
     "what is accepted is compared with the conditions written down independently",
     assumptions=["under the solver the checksum is a mixing function that depends on every byte, their order and the seed (C18 decides that the real one is CRC-32C)"],
     cbmc=["--max-field-sensitivity-array-size", "1024"])
prop("C18", "ext4.crc", "pieces of 0 to 4 bytes (thorough: 5) with any seed, and of 16, 20 and 70 bytes (thorough: 260) of which the last is symbolic",
     "the checksum is compared with a bitwise CRC-32C; longer pieces are the same step repeated",
     outside="all contents of pieces longer than 4 bytes at once")
prop("C19", "ext4.inode.inode ext4.inode.time", "every content of inodes of 128, 129, 140, 160 and 256 bytes with the extra sizes 0, 4, 28, 32 and 65535; every extra size with three marked fields",
     "each accessor is compared with the little-endian field at its offset in Linux's struct ext4_inode",
     assumptions=["under the solver the checksum is a mixing function (C18 decides that the real one is CRC-32C)"])
prop("C20", "ext4.inode.time ext4.inode.inode", "every value of the seconds and the extra field",
     "a timestamp against 34-bit signed seconds and 30-bit nanoseconds",
     assumptions=["chrono's calendar date and time is represented as a plain count of seconds and nanoseconds under the solver"])
prop("C21", "ext4.block_group.descriptor", "every content of descriptors of 0, 1, 32, 33, 59, 60, 64, 65 and 128 bytes",
     "each accessor is compared with the little-endian field at its offset in Linux's struct ext4_group_desc")
prop("C24", "ext4.extent.extent", "every content of a record", "records against Linux's struct ext4_extent and ext4_extent_idx")
prop("C30", "ext4.string", "every two byte strings of up to 6 bytes", "equality, order and hash against the bytes up to the first zero")
prop("C31", "ext4.superblock.superblock ext4.inode.file_type ext4.directory.file_type ext4.block_group.descriptor ext4.inode.inode ext4.inode.time", "every value of each code and set of flags",
     "decoding and encoding of codes and flags against Linux's constants")
