// Classification of member roles.
use super::*;
use crate::sym::*;

fn check(role: MdDeviceRole, v: u32) {
    let active = v <= 0xfeff;
    let (spare, faulty, journal) = (v == 0xffff, v == 0xfffe, v == 0xfffd);
    assert!(role.is_spare() == spare, "spare");
    assert!(role.is_faulty() == faulty, "faulty");
    assert!(role.is_journal() == journal, "journal");
    assert!(role.is_invalid() == !(active || spare || faulty || journal), "invalid");
    assert!(role.is_valid() != role.is_invalid(), "valid or invalid");
    match role.device_number() {
        Some(n) => assert!(active && n.0 == v, "number of an active member"),
        None => assert!(!active, "an active member has a number"),
    }
    cover!(active, "active");
    cover!(role.is_invalid() && v < 0x10000, "invalid");
}
h_proof!(p10_wide, 2, {
    let v: u32 = any();
    match MdDeviceRole::try_read(v) {
        Ok(role) => {
            check(role, v);
            match MdDeviceRole::try_write(role) {
                Ok(w) => assert!(w == v, "the stored number is kept"),
                Err(_) => panic!(),
            }
        }
        Err(_) => panic!(),
    }
});
h_proof!(p10_narrow, 2, {
    let v: u16 = any();
    check(MdDeviceRole::from_u16(v), v as u32);
});
h_proof!(p10_order, 2, {
    // roles are equal exactly if their numbers are
    let (a, b): (u16, u16) = (any(), any());
    let (x, y) = (MdDeviceRole::from_u16(a), MdDeviceRole::from_u16(b));
    assert!((x == y) == (a == b));
    cover!(x == y, "equal");
});
