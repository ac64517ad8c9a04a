//! P13: a proxied asset takes part only with its own signature.
use crate::env::*;

/// Asset layout, instruction data, then the other accounts.
macro_rules! proof_signed {
    ($name:ident, $unwind:literal, $d:ty, $h:expr, $data:expr, $($other:ident = $o:expr),*) => {
        proof!($name, $unwind, {
            let mut asset = Acc::<$d>::any();
            asset.data.a.standard = PROXIED;
            kani::assume(valid_hdr(&asset.data.a));
            let set: fn(&mut Acc<$d>) = $h;
            set(&mut asset);
            $(let mut $other = $o;)*
            let pre = asset;
            let ok = invoke(&[info(&mut asset) $(, info(&mut $other))*], &$data);
            ensures!(!ok || pre.signed() || !eq(&pre.owner, &PROGRAM), "a proxied asset signs for itself");
            ensures!(!ok || eq(&pre.owner, &PROGRAM), "the asset belongs to the program");
            reach!(ok, "accepted with the asset's signature");
        });
    };
}
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct One {
    address: Key,
    verified: u8,
    share: u8,
    pad: [u8; 6],
}
fn system() -> Wallet {
    let mut w = Wallet::any();
    w.key = SYSTEM;
    w
}
fn group() -> Acc<T1<GroupingData>> {
    let mut g = Acc::<T1<GroupingData>>::any();
    g.data.e.h = [T_GROUPING, 48, 232, 0];
    kani::assume(valid_hdr(&g.data.a));
    kani::assume(g.data.e.d.size < 1 << 62);
    g
}
proof_signed!(transfer, 6, L0, |_| (), [tag::TRANSFER], signer = Wallet::any(), recipient = Wallet::any(), group = absent());
proof_signed!(burn, 6, L0, |_| (), [tag::BURN], signer = Wallet::any(), recipient = absent(), group = absent());
proof_signed!(lock, 6, L0, |_| (), [tag::LOCK], signer = Wallet::any());
proof_signed!(unlock, 6, L0, |_| (), [tag::UNLOCK], signer = Wallet::any());
proof_signed!(approve, 6, L0, |_| (), [tag::APPROVE, 0], owner = Wallet::any(), delegate = Wallet::any());
proof_signed!(revoke, 6, L0, |_| (), [tag::REVOKE, 0], signer = Wallet::any());
proof_signed!(verify, 6, T1<One>, |a| a.data.e.h = [T_CREATORS, 34, 224, 0], [tag::VERIFY], creator = Wallet::any());
proof_signed!(unverify, 6, T1<One>, |a| a.data.e.h = [T_CREATORS, 34, 224, 0], [tag::UNVERIFY], creator = Wallet::any());
proof_signed!(update, 8, L0, |_| (), [tag::UPDATE, 0, 1, 0, 0], authority = Wallet::any(), buffer = absent(), group = absent(), payer = absent(), system = absent());
proof_signed!(group_join, 6, L0, |_| (), [tag::GROUP], group = group(), authority = Wallet::any());
proof_signed!(group_leave, 6, L0, |_| (), [tag::UNGROUP], group = group(), authority = Wallet::any());
proof_signed!(handover, 6, L0, |_| (), [tag::HANDOVER], authority = Wallet::any(), new = Wallet::any());
proof_signed!(remove, 6, L1<8>, |a| a.data.e.h = [T_BLOB, 8, 192, 0], [tag::REMOVE, 2], authority = Wallet::any(), group = absent(), recipient = Wallet::any());
proof_signed!(resize, 6, L0, |_| (), [tag::RESIZE, 0], authority = Wallet::any(), payer = Wallet::any(), system = system());
