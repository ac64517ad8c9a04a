//! P17: buffers.  Allocate, write and close work only on an account that
//! signs and is not an asset, and put down exactly the given bytes.
use crate::env::*;
use asset_program::instruction::{AllocateInput, DataInput, ExtensionInput};
use nifty_asset_types::extensions::ExtensionType;

fn system() -> Wallet {
    let mut w = Wallet::any();
    w.key = SYSTEM;
    w
}
fn payer() -> Wallet {
    let mut w = Wallet::any();
    w.key = GROUP_KEY;
    w
}
/// A buffer has an empty header (kept by the instructions below); an asset any.
fn buffer_or_asset(a: &mut Hdr) {
    if a.discriminator == 0 {
        *a = unsafe { core::mem::zeroed() };
    }
}
fn word<D>(a: &Acc<D>, o: usize) -> u32 {
    u32::from_le_bytes([a.byte(o), a.byte(o + 1), a.byte(o + 2), a.byte(o + 3)])
}
fn ext<D>(a: &Acc<D>, at: usize) -> (u32, u32, u32) {
    (word(a, at), word(a, at + 4), word(a, at + 8))
}
/// A call that keeps the rules and can be paid for.
fn proper<D>(asset: &Acc<D>, discriminator: u8, p: &Wallet, s: &Wallet) -> bool {
    asset.signed()
        && eq(&asset.owner, &PROGRAM)
        && discriminator == 0
        && p.signed()
        && eq(&p.owner, &SYSTEM)
        && p.lamports >= 1 << 40
        && !eq(&s.owner, &PROGRAM)
}
fn ensure_gate<D>(ok: bool, pre: &Acc<D>, discriminator: u8) {
    ensures!(!ok || pre.signed(), "the buffer signs");
    ensures!(!ok || eq(&pre.owner, &PROGRAM), "the buffer belongs to the program");
    ensures!(!ok || discriminator == 0, "an asset is not a buffer");
}
fn ensure_lamports<D>(asset: &Acc<D>, pre: &Acc<D>, now: &Wallet, p: &Wallet) {
    ensures!(refused() || asset.lamports as u128 + now.lamports as u128 == pre.lamports as u128 + p.lamports as u128, "lamports move between buffer and payer only");
    ensures!(refused() || asset.lamports >= pre.lamports || asset.lamports >= rent_for(asset.data_len as usize), "the buffer stays rent exempt");
    ensures!(refused() || p.signed() || now.lamports >= p.lamports, "only a signing payer pays");
    ensures!(refused() || eq(&asset.owner, &pre.owner), "the program owner is kept");
}

// ---- allocate

/// A bucket of 13 bytes with the given data.
fn allocate<D>(asset: &mut Acc<D>, p: &mut Wallet, s: &mut Wallet, data: &[u8]) -> bool {
    let extension = ExtensionInput { extension_type: ExtensionType::Bucket, length: 13, data: Some(data.to_vec()) };
    invoke_allocate(&[info(asset), info(p), info(s)], AllocateInput { extension })
}
/// A new account: `$n` of 13 bytes given.
macro_rules! proof_fresh {
    ($name:ident, $n:literal, $size:literal) => {
        proof_direct!($name, 6, {
            let mut asset = blank::<L1<16>>();
            let (mut p, mut s) = (payer(), system());
            let d: [u8; $n] = kani::any();
            let (pre, w) = (asset, p);
            let ok = allocate(&mut asset, &mut p, &mut s, &d);
            if ok {
                ensures!(pre.signed() && w.signed(), "allocate: new account and payer sign");
                ensures!(eq(&asset.owner, &PROGRAM) && asset.data_len == $size, "allocate: an account of the program");
                ensures!(refused() || asset.lamports == rent_for($size) && p.lamports == w.lamports - rent_for($size), "allocate: the payer pays the rent");
                ensures!(ext(&asset, 168) == (T_BUCKET, 13, 200), "allocate: kind, length and boundary");
                let i: usize = kani::any();
                kani::assume(i < $n);
                ensures!(asset.byte(184 + i) == d[i], "allocate: the given data");
                let j: usize = kani::any();
                kani::assume(j < 168);
                ensures!(asset.byte(j) == 0, "allocate: not an asset yet");
            }
            if pre.signed() && w.signed() && eq(&w.owner, &SYSTEM) && w.lamports >= 1 << 40 && !eq(&s.owner, &PROGRAM) {
                ensures!(ok, "allocate: a proper request is not refused");
            }
            reach!(ok, "allocated");
        });
    };
}
proof_fresh!(fresh_complete, 13, 200);
proof_fresh!(fresh_partial, 5, 189);

/// Behind an extension of `$len` bytes: `$given` says how many of them are there.
macro_rules! proof_second {
    ($name:ident, $have:literal, $kind:expr, $fits:expr) => {
        proof_direct!($name, 6, {
            let mut asset = Acc::<Room<L1<8>, 32>>::any();
            buffer_or_asset(&mut asset.data.d.a);
            asset.data.d.e.h = [$kind, 6, 192, 0];
            asset.data.room = [0; 32];
            asset.data_len = $have;
            let (mut p, mut s) = (payer(), system());
            let d: [u8; 13] = kani::any();
            let (pre, w) = (asset, p);
            let a = pre.data.d.a;
            let ok = allocate(&mut asset, &mut p, &mut s, &d);
            ensure_gate(ok, &pre, a.discriminator);
            ensures!(!ok || $fits, "allocate: once per kind, behind complete extensions only");
            if ok {
                ensures!(ext(&asset, 168) == ($kind, 6, 192), "allocate: the extension before it is kept");
                ensures!(ext(&asset, 192) == (T_BUCKET, 13, 224), "allocate: kind, length and boundary");
                let i: usize = kani::any();
                kani::assume(i < 13);
                ensures!(asset.byte(208 + i) == d[i], "allocate: the given data");
                ensures!(i >= 6 || asset.byte(184 + i) == pre.byte(184 + i), "allocate: the data before it is kept");
                ensures!(refused() || asset.data_len == 224, "allocate: the account ends with the extension");
            }
            ensures_same!(asset, pre, 0, 168, "allocate: the header is kept");
            ensure_lamports(&asset, &pre, &p, &w);
            if proper(&pre, a.discriminator, &w, &s) && $fits {
                ensures!(ok, "allocate: a proper request is not refused");
            }
            reach!(if $fits { ok } else { proper(&pre, a.discriminator, &w, &s) }, "decided");
        });
    };
}
proof_second!(second, 192, T_LINKS, true);
proof_second!(second_incomplete, 188, T_LINKS, false);
proof_second!(second_same_kind, 192, T_BUCKET, false);

// ---- write

/// 13 bytes expected, `$have` of them present, `$n` are written.
macro_rules! proof_write {
    ($name:ident, $have:literal, $overwrite:literal, $n:literal, $fits:expr, $size:literal) => {
        proof_direct!($name, 6, {
            let mut asset = Acc::<Room<L1<16>, 16>>::any();
            buffer_or_asset(&mut asset.data.d.a);
            asset.data.d.e.h = [T_BUCKET, 13, 200, 0];
            asset.data.room = [0; 16];
            asset.data_len = 184 + $have;
            let (mut p, mut s) = (payer(), system());
            p.is_signer = 1; // see unpaid
            let d: [u8; $n] = kani::any();
            let (pre, w) = (asset, p);
            let a = pre.data.d.a;
            let ok = invoke_write(&[info(&mut asset), info(&mut p), info(&mut s)], DataInput { overwrite: $overwrite == 1, bytes: d.to_vec() });
            ensure_gate(ok, &pre, a.discriminator);
            ensures!(!ok || $fits, "write: never past the announced length");
            if ok {
                let from = if $overwrite == 1 { 0 } else { $have };
                ensures!(ext(&asset, 168) == (T_BUCKET, 13, 200), "write: the extension's header is kept");
                let i: usize = kani::any();
                kani::assume(i < 13);
                ensures!(i < from || i >= from + $n || asset.byte(184 + i) == d[i - from], "write: the given bytes");
                ensures!(i >= from || asset.byte(184 + i) == pre.byte(184 + i), "write: the bytes before are kept");
                ensures!(refused() || asset.data_len == $size, "write: the account ends with the data, or the boundary when complete");
            }
            ensures_same!(asset, pre, 0, 168, "write: the header is kept");
            ensure_lamports(&asset, &pre, &p, &w);
            if proper(&pre, a.discriminator, &w, &s) && $fits {
                ensures!(ok, "write: a proper request is not refused");
            }
            reach!(if $fits { ok } else { proper(&pre, a.discriminator, &w, &s) }, "decided");
        });
    };
}
proof_write!(append, 4, 0, 5, true, 193);
proof_write!(append_completes, 4, 0, 9, true, 200);
proof_write!(append_too_much, 4, 0, 10, false, 0);
proof_write!(overwrite, 4, 1, 6, true, 190);
proof_write!(overwrite_completes, 4, 1, 13, true, 200);
proof_write!(overwrite_too_much, 4, 1, 14, false, 0);

proof_direct!(unpaid, 6, {
    let mut asset = Acc::<Room<L1<16>, 16>>::any();
    asset.data.d.a = unsafe { core::mem::zeroed() };
    asset.data.d.e.h = [T_BUCKET, 13, 200, 0];
    asset.data.room = [0; 16];
    asset.data_len = 188;
    let (mut p, mut s) = (payer(), system());
    p.is_signer = 0;
    let d: [u8; 5] = kani::any();
    reach!(asset.signed() && eq(&asset.owner, &PROGRAM), "a buffer");
    let ok = invoke_write(&[info(&mut asset), info(&mut p), info(&mut s)], DataInput { overwrite: false, bytes: d.to_vec() });
    ensures!(!ok, "write: the payer signs");
});

// ---- close

proof!(close, 6, {
    let mut asset = Acc::<L1<8>>::any();
    buffer_or_asset(&mut asset.data.a);
    let mut r = Wallet::any();
    let (pre, w) = (asset, r);
    let d = pre.data.a.discriminator;
    let ok = invoke(&[info(&mut asset), info(&mut r)], &[tag::CLOSE]);
    ensure_gate(ok, &pre, d);
    if ok {
        ensures!(refused() || asset.lamports == 0 && asset.data_len == 0 && eq(&asset.owner, &SYSTEM), "close: the buffer is gone");
        ensures!(refused() || r.lamports == w.lamports + pre.lamports, "close: the recipient gets all lamports");
    }
    ensures!(refused() || eq(&r.owner, &w.owner) && r.data_len == w.data_len, "close: the recipient is kept");
    if pre.signed() && eq(&pre.owner, &PROGRAM) && d == 0 && !eq(&w.owner, &PROGRAM) {
        ensures!(ok, "close: a proper request is not refused");
    }
    reach!(ok, "closed");
});
