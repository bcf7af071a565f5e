#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and harness/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{HERE}/harness")
import props

P = []


def p(id, title, statement, over, text, why, files, mech, claimed=None, observe=()):
    P.append((dict(id=id, title=title, statement=statement,
                   quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                   anchors=dict(files=files.split(),
                                mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({"observe_at": list(observe)} if observe else {}))), claimed))


p("C01", "RAID6 sector mapping agrees with the Linux kernel",
  "For every supported RAID6 layout, the member, member sector, P member and Q member that a logical sector is mapped to are those the Linux md driver uses. Layouts Linux does not define for RAID6 and impossible geometries (no chunk size, fewer than three members) yield no location at all.",
  "inputs configurations", "every layout number, logical sector, chunk size and number of members",
  "The mapping has 2^64 sectors times 14 layouts times chunk sizes and member counts; there is no test of it at all.",
  "src/md/raid6/algorithm.rs src/md/raid6/mod.rs src/ext/wide_unsigned.rs src/ext/long_mul.rs",
  [("sector computation of RAID6", "src/md/raid6/algorithm.rs compute_sector"), ("layout decoding", "src/md/raid6/algorithm.rs from_layout")])
p("C02", "RAID5 sector mapping agrees with the Linux kernel",
  "For every supported RAID5 layout, the data member, member sector and parity member of a logical sector are those the Linux md driver uses. Layouts that RAID5 does not have and impossible geometries (no chunk size, fewer than two members) yield no location.",
  "inputs configurations", "every layout number, logical sector, chunk size and number of members",
  "The quantifier is over all sectors, layouts and geometries; no test exercises the mapping.",
  "src/md/raid5/algorithm.rs", [("sector computation of RAID5", "src/md/raid5/algorithm.rs compute_sector")])
p("C03", "Distinct logical sectors never share a place on the members",
  "Two different logical sectors of an array are never mapped to the same sector of the same member. Within a stripe, data, P and Q are on different members, all of which exist.",
  "inputs configurations", "every pair of logical sectors, for every layout and geometry",
  "A statement about pairs of sectors; samples cannot show that no pair collides.",
  "src/md/raid5/algorithm.rs src/md/raid6/algorithm.rs",
  [("sector computation", "src/md/raid6/algorithm.rs compute_sector"), ("sector computation", "src/md/raid5/algorithm.rs compute_sector")])
p("C04", "A sector is only returned when the parity of its stripe agrees with it",
  "Reading a logical sector of a RAID6 array returns exactly the bytes of its data member, and only if every data member and P could be read completely and P is the exclusive or of the data. Otherwise the read fails; a readable, consistent stripe is always readable. An array of a level that cannot be checked this way is not read.",
  "inputs fault_sequences", "every content of the members, and any member that fails to read or reads short",
  "It quantifies over all member contents and faults; tests read no array at all.",
  "src/md/raid6/algorithm.rs src/md/algorithm.rs",
  [("read of a sector with parity check", "src/md/raid6/algorithm.rs read_sector")])
p("C05", "Reading an array reads the mapped sectors of its members",
  "A block read from an assembled array is the corresponding sector of the member the mapping names, counted from that member's own data offset, whatever the offsets of the members. If a needed member is missing or the address does not exist, the read fails without returning data.",
  "inputs configurations fault_sequences", "every data offset, member content, missing member and block number",
  "No test opens an array; offsets, contents and missing members multiply.",
  "src/md/array.rs src/block_device/reader.rs",
  [("array read", "src/md/array.rs read_block"), ("byte stream over a block device", "src/block_device/reader.rs read")])
p("C06", "The capacity of an array is what its members can hold in whole chunks",
  "The number of sectors of an array is the number of whole chunks on each member times the number of data members times the chunk size. An array with an unsupported level, too few members, no chunk size or a capacity beyond 64 bits has no capacity rather than a wrong one.",
  "inputs configurations", "every member size, chunk size and member count",
  "Arithmetic over 64-bit sizes with overflow corner cases; untested.",
  "src/md/format.rs src/md/array.rs", [("data sector count", "src/md/format.rs data_sector_count"), ("array block count", "src/md/array.rs block_count")])
p("C07", "Version 1 superblocks are decoded as Linux lays them out",
  "Every quantity reported for a version 1 md superblock (identity, name, level and layout, chunk size, device count, data offset and size, event count, device number, roles, reshape) is the little-endian field at the offset Linux defines. A block is only accepted as such a superblock if its magic and major version match.",
  "inputs", "every content of the 4096 bytes of a superblock",
  "Tests decode one recorded superblock; a wrong offset, width or gate shows only on other contents.",
  "src/md/superblock/version_1/superblock.rs src/md/superblock/version_1/reshape_status.rs src/md/superblock/version_1/features.rs",
  [("layout and accessors", "src/md/superblock/version_1/superblock.rs"), ("reshape fields", "src/md/superblock/version_1/reshape_status.rs")])
p("C08", "Version 0 superblocks are decoded in both byte orders",
  "Every quantity reported for a version 0.90 or 0.91 md superblock is the field Linux defines, read in the byte order of its magic, with sizes converted to sectors. A reshape is only reported from minor version 91 on, and a full UUID only from 90 on.",
  "inputs", "every content of the 4096 bytes of a superblock, in both byte orders",
  "Tests decode two recorded superblocks and sample few fields.",
  "src/md/superblock/version_0/superblock.rs src/md/superblock/version_0/big_endian/superblock.rs src/md/superblock/version_0/little_endian/superblock.rs",
  [("reading of both byte orders", "src/md/superblock/version_0/superblock.rs")])
p("C09", "The superblock is looked for where Linux puts it, in a fixed order",
  "A device's superblock is the first that is valid of: version 1.2 at 4 KiB, 1.1 at the start, 1.0 and then 0.90 at their places near the end, as computed by Linux from the device size. A device smaller than any superblock needs is reported too small, one without a superblock as lacking it; an unreadable location counts as holding none.",
  "inputs configurations fault_sequences", "every device size, every combination of valid superblocks and unreadable locations",
  "Sizes are 64-bit and the locations may coincide; no test probes a device.",
  "src/md/device/device.rs", [("probe", "src/md/device/device.rs from_block_device")])
p("C10", "Every member role is classified exactly once",
  "Each role number stored in a superblock denotes exactly one of: an active member with that number, a spare, a faulty member, the journal, or an invalid role. Only an active member has a device number, and it is the stored number.",
  "inputs", "every 16-bit role number and every wider value a caller may pass",
  "Boundary values around 0xfffd to 0xffff and 32-bit values decide it; untested.",
  "src/md/superblock/role.rs", [("role classification", "src/md/superblock/role.rs")])
p("C11", "Array assembly does not depend on the order of the devices",
  "The members an array is assembled from, and those it sets aside, are the same in whatever order the devices are given. A spare, faulty or missing entry yields to another device's knowledge of the role, contradicting entries leave every member inactive, and two devices claiming one role are both set aside.",
  "configurations schedules inputs", "every set of up to three devices with arbitrary roles, in every order, and every hash map order",
  "Orders and role tables multiply, and the order of hash maps differs between runs.",
  "src/md/array.rs src/ext/multi_map.rs",
  [("merge of role tables", "src/md/array.rs open"), ("grouping by key", "src/ext/multi_map.rs")])
p("C12", "A diagnosis reports exactly the differences between the devices",
  "The diagnosis of an array names a device as too small or lacking a superblock if and only if it is, and a difference between devices if and only if two superblocks differ in identity, name, algorithm, size, chunk size, device count, reshape, event count or roles, with the devices grouped by the value they have; a shared role is named if and only if two devices claim it.",
  "configurations inputs", "every combination of superblock contents over a few devices",
  "The report depends on all combinations of fields and devices; untested.",
  "src/md/definition.rs src/md/diagnosis/mod.rs",
  [("diagnosis", "src/md/definition.rs diagnose")])
p("C13", "The geometries before and after a reshape are told apart",
  "The current geometry of an array that is being reshaped has the device count less the signed difference recorded in the superblock, with the current layout and chunk size; the new geometry has the device count, layout and chunk size it is being reshaped to. A difference that leaves no valid count yields no geometry.",
  "inputs configurations", "every device count, signed difference, layout and chunk size",
  "Signed 32-bit arithmetic on untrusted fields; untested.",
  "src/md/format.rs src/md/units/device_count.rs", [("geometry", "src/md/format.rs from_superblock, from_superblock_reshape_status"), ("signed subtraction", "src/md/units/device_count.rs")])
p("C14", "A block device read as a stream is the sequence of its blocks' bytes",
  "Reading and seeking through the stream view of a block device gives the bytes of its blocks in order: a read at a position returns the bytes from there on, never skips or repeats one, ends with the device, and a failed seek leaves the position unchanged.",
  "histories inputs", "every sequence of reads and seeks, positions, buffer lengths and block sizes",
  "It quantifies over sequences of operations and unaligned positions.",
  "src/block_device/reader.rs", [("stream view", "src/block_device/reader.rs read, seek")])
p("C15", "A block is read alike from every kind of block device",
  "Reading a block fills exactly one block's worth of the buffer and reports that length, leaves the rest of a longer buffer alone, and refuses a shorter buffer or a block beyond the end, for devices in memory, files, arrays and file systems alike. No block number makes it panic or return another block.",
  "inputs configurations", "every block number, buffer length and block size",
  "Extremes of 64-bit block numbers and odd buffer lengths are not tested.",
  "src/block_device/in_memory.rs src/md/array.rs src/ext4/fs.rs",
  [("read of a block", "src/block_device/in_memory.rs read_block"), ("read of a block", "src/ext4/fs.rs read_block")])
p("C16", "The ext4 superblock is decoded as Linux lays it out",
  "Every quantity reported for an ext4 superblock is the little-endian field (or pair of low and high halves) at the offset Linux defines. Names end at their first zero byte, a size that cannot be represented is no power of two, and the seed of metadata checksums is the stored one, that of the UUID, or none, as the features say.",
  "inputs", "every content of the 1024 bytes of a superblock",
  "Tests decode one recorded superblock, where most high halves are zero.",
  "src/ext4/superblock/superblock.rs", [("layout and accessors", "src/ext4/superblock/superblock.rs")])
p("C17", "Only a coherent ext4 superblock is accepted",
  "A superblock is accepted if and only if its magic matches, its checksum does when it has one (and is of a known type), and its block, cluster and flex group sizes and error policy are possible ones. No content makes this panic.",
  "inputs", "every content of the 1024 bytes of a superblock",
  "Tests accept one recorded superblock and reject none.",
  "src/ext4/superblock/superblock.rs src/ext4/crc.rs", [("acceptance", "src/ext4/superblock/superblock.rs valid")])
p("C18", "Metadata checksums are CRC-32C as ext4 defines it",
  "The checksum of a piece of metadata is the reflected Castagnoli CRC of its bytes continued from the given seed, without the final inversion, and continues over consecutive pieces.",
  "inputs", "every seed and every content up to the bound",
  "A statement about all contents; one recorded example is tested.",
  "src/ext4/crc.rs", [("checksum", "src/ext4/crc.rs")])
p("C19", "Inodes are decoded as Linux lays them out",
  "Every quantity reported for an inode (mode, owner, size, times, links, blocks, flags, generation, extended fields) is the field Linux defines, the low and high halves combined, and fields beyond the inode's own extra size or its place on disk read as zero. The seed of its checksums is that of the file system continued over its number and generation, if the file system has metadata checksums, and no content or extra size makes decoding panic.",
  "inputs configurations", "every content of an inode, every inode size and extra size",
  "One recorded inode is tested; sizes, extra fields and corrupt values are not.",
  "src/ext4/inode/inode.rs", [("layout, accessors and seed of the checksum", "src/ext4/inode/inode.rs")])
p("C20", "Timestamps cover the whole ext4 range",
  "A timestamp of an inode is the signed 32-bit seconds extended by the two epoch bits, plus the 30-bit nanoseconds, for all values, before 1970 and after 2038 alike; inodes without extra fields have plain signed 32-bit times.",
  "inputs", "every value of the two fields",
  "Tests check a list of examples from the kernel documentation, not the whole range nor invalid nanoseconds.",
  "src/ext4/inode/time.rs src/ext/system_time.rs", [("conversion", "src/ext4/inode/time.rs")])
p("C21", "Block group descriptors are decoded as Linux lays them out",
  "Every quantity of a block group descriptor is the field Linux defines, with the high halves used exactly when the descriptors are large enough to have them. No descriptor size makes decoding panic.",
  "inputs configurations", "every content of a descriptor, and descriptor size",
  "One recorded descriptor is tested.",
  "src/ext4/block_group/descriptor.rs", [("layout", "src/ext4/block_group/descriptor.rs")])
p("C22", "An inode number is looked up at its place and nowhere else",
  "Looking up inode n reads the bytes of that inode: index (n-1) modulo the inodes per group in the inode table of group (n-1) divided by them. Numbers beyond the file system's inodes, and 0, have no inode; no number and no table location makes the lookup panic.",
  "inputs configurations", "every inode number and table geometry within the bounds",
  "Only a few inodes of one image are looked up.",
  "src/ext4/fs.rs", [("inode lookup", "src/ext4/fs.rs")])
p("C23", "Opening a corrupt file system fails cleanly",
  "Opening a file system with any superblock content either fails with an error or yields a file system whose group descriptors are those stored after the superblock; it never panics, divides by zero or allocates without bound.",
  "inputs", "every combination of the superblock's size fields",
  "Tests open one valid image; nothing corrupt.",
  "src/ext4/fs.rs", [("open", "src/ext4/fs.rs open")])
p("C24", "Extent records are decoded as Linux lays them out",
  "An extent record gives the first logical block, the length and the 48-bit physical block Linux defines: lengths up to 32768 are initialized blocks, greater ones are uninitialized and 32768 less. Index records give the first logical block and 48-bit child block.",
  "inputs", "every content of a record",
  "The length rule turns on single values that recorded data do not have.",
  "src/ext4/extent/extent.rs src/ext4/extent/index.rs", [("records", "src/ext4/extent/extent.rs"), ("index records", "src/ext4/extent/index.rs")])
p("C25", "Only intact extent tree blocks are accepted",
  "A block of an extent tree is accepted if and only if its magic matches, its entries fit in what it says to have room for and in the block, and its checksum, stored after that room, matches when the file system has checksums. No content makes it panic.",
  "inputs configurations", "every header, entry count and checksum",
  "Recorded images have intact blocks only.",
  "src/ext4/extent/tree.rs", [("validation", "src/ext4/extent/tree.rs")])
p("C26", "A file reads as its allocated blocks in order",
  "Reading a file block by block returns the bytes its extents place there, in order: initialized extents the blocks they point to, uninitialized ones zeros, up to the file's size and not beyond, where blocks may still be allocated. A block that has no extent, or cannot be read, is an error rather than other data.",
  "inputs histories configurations", "every extent layout within the bounds, file size and buffer length",
  "Tests read a few files of one image sequentially.",
  "src/ext4/file.rs src/ext4/extent/tree.rs", [("file read", "src/ext4/file.rs read"), ("extent iteration", "src/ext4/extent/tree.rs")])
p("C27", "Reading a corrupt file ends with an error, never a hang or a panic",
  "Whatever the extent tree of a file contains, including trees that refer to themselves, empty nodes and records of no length, walking it ends after boundedly many steps, with data or with an error.",
  "inputs", "every extent tree content within the bounds",
  "Tests contain no corrupt trees.",
  "src/ext4/extent/tree.rs src/ext4/file.rs", [("walk of the tree", "src/ext4/extent/tree.rs")])
p("C28", "A directory block yields exactly its records",
  "Parsing a block of a directory yields the records in use, in order, with the inode, name of the stated length and type, skips unused ones, and stops at the first that is malformed. A block is accepted only with a matching checksum if the file system has them; no content makes it panic or loop.",
  "inputs", "every content of the records within the bounds",
  "Tests parse intact blocks of one image.",
  "src/ext4/directory/block.rs src/ext4/directory/dir_entry.rs", [("record parsing", "src/ext4/directory/dir_entry.rs"), ("block", "src/ext4/directory/block.rs")])
p("C29", "Listing a directory yields the records of all its blocks in order",
  "Iterating over a directory yields the records of its blocks in file order and then ends; a block that cannot be read or is not intact yields an error rather than made-up records, and the iteration always ends.",
  "inputs histories fault_sequences", "every sequence of intact, corrupt and unreadable blocks within the bounds",
  "Tests list intact directories.",
  "src/ext4/directory/directory.rs", [("iteration", "src/ext4/directory/directory.rs")])
p("C30", "Names compare by their bytes",
  "Two file names are equal exactly if their bytes up to the terminating zero are, their order is that of those bytes, and equal names hash alike, so that they can be used as keys.",
  "inputs", "every pair of byte strings within the bound",
  "Laws over pairs of values; not tested.",
  "src/ext4/string.rs", [("comparison", "src/ext4/string.rs")])
p("C31", "Enumerations and flags keep every stored value",
  "Each code and flag stored in ext4 metadata decodes to the meaning Linux gives it, and values without a known meaning are reported as such without being lost, changed or causing a panic.",
  "inputs", "every stored value",
  "Tests see the values of one image.",
  "src/ext4/superblock src/ext4/inode src/ext4/directory/file_type.rs", [("enumerations", "src/ext4/superblock"), ("file mode", "src/ext4/inode/file_mode.rs")])
p("C32", "Real block devices report their size and contents faithfully",
  "The size, block size and contents of a device or image file opened by path are those of the device, also after cloning the handle.",
  "inputs fault_sequences", "every device and file", "Needs devices.",
  "src/block_device/native.rs src/block_device/file.rs src/ioctl/blk.rs",
  [("ioctl", "src/ioctl/blk.rs")],
  claimed="the behaviour is that of system calls (open, fstat, BLKGETSIZE64 and BLKSSZGET ioctls, lseek, dup) behind foreign functions: there is no code of the repository's own whose symbolic execution would decide it, and modelling the kernel would check the model")
p("C33", "The command exits and reports according to what it found",
  "Run on given devices, the program reports every diagnosis of the array on them and fails with a message if a device cannot be opened.",
  "configurations fault_sequences", "every command line and device state", "No test runs the program.",
  "src/main.rs", [("entry point", "src/main.rs")],
  claimed="a thin process shell over argument parsing, system calls and formatted output; the formatting and OS layers cannot be encoded, and the decisions behind it are covered by the properties on probing, assembly and diagnosis")

LEVEL_NOTE = ("Decided by a solver for every value within the stated bounds; nothing is claimed beyond them. "
              "Trusts Kani/CBMC's semantics of Rust and the SAT solver. A counterexample is only reported once it "
              "reproduces on the natively compiled sources. ")


def main():
    only = [x for x in sys.argv[1:]]
    checks, na = [], []
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for d, reason in P:
            if reason is None and d["id"] not in props.PROPS and "--drafts" not in only:
                reason = "no check yet"
            f.write(json.dumps(d) + "\n")
            if reason is not None:
                na.append(dict(property=d["id"], reason=reason))
                continue
            c = props.PROPS[d["id"]]
            checks.append(dict(property=d["id"], quick_cmd=f"./check {d['id']}", thorough_cmd=f"./check {d['id']} --thorough",
                               technique="bounded symbolic execution of the Rust MIR (Kani/CBMC) decided by SAT, counterexamples replayed natively",
                               level="other", level_note=LEVEL_NOTE + "Bounds: " + c["bounds"] + "." + (" Outside: " + c["outside"] + "." if c["outside"] else "")))
    manifest = dict(version=1, setup_cmd="./setup",
                    hooks=dict(guard="none (the sources are mirrored at build time and harnesses are appended to the mirror)",
                               enable="MD_RECOVER_REPO=/repo cargo kani in /verif/harness (done by ./check)", source_commits=[]),
                    checks=checks, not_applicable=na,
                    notes="Each check mirrors /repo/src into its build folder, appends the harness modules, and lets Kani decide the harnesses of the property. See DESIGN.md.")
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
