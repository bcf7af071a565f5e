// Names compare by their bytes.
use super::*;
use crate::sym::*;

const N: usize = 6;
/// A hasher that keeps what it is given.
struct Kept([u8; 32], usize);
impl Hasher for Kept {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            if self.1 < 32 {
                self.0[self.1] = *x;
            }
            self.1 += 1;
        }
    }
}
fn length(b: &[u8; N]) -> usize {
    let mut n = N;
    for i in (0..N).rev() {
        if b[i] == 0 {
            n = i;
        }
    }
    n
}
h_proof!(p30_bytes, 10, {
    let b: [u8; N] = any();
    let s = Ext4String::from_null_terminated_bytes(&b);
    let n = length(&b);
    assert!(s.len() == n && s.is_empty() == (n == 0), "length");
    let got: &[u8] = (&s).into();
    for i in 0..N {
        if i < n {
            assert!(got[i] == b[i], "bytes");
        }
    }
    assert!(got.len() == n, "length of the bytes");
    cover!(n == N, "no terminating zero");
    let o = s.to_owned();
    assert!(o.len() == n, "length of a copy");
    let got: &[u8] = (&o).into();
    for i in 0..N {
        if i < n {
            assert!(got[i] == b[i], "bytes of a copy");
        }
    }
    std::mem::forget(o);
});
h_proof!(p30_compare, 10, {
    let (a, b): ([u8; N], [u8; N]) = (any(), any());
    let (x, y) = (Ext4String::from_null_terminated_bytes(&a), Ext4String::from_null_terminated_bytes(&b));
    let (m, n) = (length(&a), length(&b));
    let mut expected = m.cmp(&n);
    for i in (0..N).rev() {
        if i < m && i < n && a[i] != b[i] {
            expected = a[i].cmp(&b[i]);
        }
    }
    cover!(expected == Ordering::Equal && m > 0, "equal names");
    assert!(x.cmp(&y) == expected, "order");
    assert!(x.partial_cmp(&y) == Some(expected), "partial order");
    assert!((x == y) == (expected == Ordering::Equal), "equality");
});
h_proof!(p30_hash, 34, {
    let (a, b): ([u8; N], [u8; N]) = (any(), any());
    let (x, y) = (Ext4String::from_null_terminated_bytes(&a), Ext4String::from_null_terminated_bytes(&b));
    assume(x == y);
    let (mut h, mut i) = (Kept([0; 32], 0), Kept([0; 32], 0));
    x.hash(&mut h);
    y.hash(&mut i);
    assert!(h.1 == i.1, "amount of what is hashed");
    for k in 0..32 {
        assert!(h.0[k] == i.0[k], "what is hashed");
    }
    cover!(x.len() > 2, "equal names");
});
