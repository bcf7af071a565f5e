// The checksum of metadata against a bitwise CRC-32C.
use super::*;
use crate::sym::*;

fn agrees<const N: usize>(seed: u32, bytes: [u8; N]) {
    assert!(ext4_crc32c(seed, bytes) == crc_bitwise(seed, &bytes), "checksum");
}
h_proof!(p18_initial, 10, {
    assert!(EXT4_CRC32C_INITIAL == !0, "initial value");
    assert!(ext4_crc32c(!0, [0x31u8, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39]) == !0xe306_9283, "check value");
});
h_proof!(p18_short, 10, {
    agrees::<0>(any(), any());
    agrees::<1>(any(), any());
    agrees::<2>(any(), any());
});
h_proof!(p18_word, 10, { agrees::<4>(any(), any()) });
// Longer pieces might take another way: their last byte is symbolic.
fn long<const N: usize>(seed: u32) {
    let mut b = [0u8; N];
    for i in 0..N {
        b[i] = (i * 37 + 5) as u8;
    }
    for i in N - 1..N {
        b[i] = any();
    }
    agrees(seed, b);
}
h_proof!(p18_sixteen, 18, { long::<16>(!0) });
h_proof!(p18_twenty, 22, { long::<20>(0x1234_5678) });
h_proof!(p18_seventy, 72, { long::<70>(0) });
h_proof!(p18t_five, 10, { agrees::<5>(any(), any()) });
h_proof!(p18t_hundreds, 262, { long::<260>(1) });
