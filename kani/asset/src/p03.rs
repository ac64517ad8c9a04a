//! P03: a locked asset is frozen.
use crate::env::*;

/// `data` is sent to a locked asset; nothing may succeed.
fn frozen<const N: usize>(data: [u8; N]) {
    let mut asset = Acc::<T1<ManagerData>>::any();
    let mut x = Wallet::any();
    let mut y = Wallet::any();
    let mut z = absent();
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    asset.owner = PROGRAM;
    asset.data.a.discriminator = 1;
    asset.data.a.state = LOCKED;
    kani::assume(valid_hdr(&asset.data.a));
    let ok = invoke(&[info(&mut asset), info(&mut x), info(&mut y), info(&mut z)], &data);
    ensures!(!ok, "the instruction is refused on a locked asset");
    reach!(!ok && asset.data.a.state == LOCKED, "refused while locked");
}

proof!(transfer, 6, { frozen([tag::TRANSFER]) });
proof!(burn, 6, { frozen([tag::BURN]) });
proof!(lock, 6, { frozen([tag::LOCK]) });
proof!(approve_all, 6, { frozen([tag::APPROVE, 0]) });
proof!(approve_role, 6, { frozen([tag::APPROVE, 1, 1, 0, 0, 0, 1]) });
proof!(revoke_all, 6, { frozen([tag::REVOKE, 0]) });
proof!(revoke_role, 6, { frozen([tag::REVOKE, 1, 1, 0, 0, 0, 1]) });
