//! P07: metadata changes need the authority's signature and a mutable asset,
//! and change what was asked for and nothing else.
use crate::env::*;

fn gated(pre: &Hdr, owned: bool, authority: &Wallet) -> bool {
    owned && pre.discriminator == 1 && authority.signed() && eq(&pre.authority, &authority.key) && pre.mutable == 1
}

proof!(handover, 6, {
    let mut asset = Acc::<L0>::any();
    let mut authority = Wallet::any();
    let mut new = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a));
    let pre = asset;
    let (w, n) = (authority, new);
    let ok = invoke(&[info(&mut asset), info(&mut authority), info(&mut new)], &[tag::HANDOVER]);
    let a = pre.data.a;
    let allowed = gated(&a, eq(&pre.owner, &PROGRAM), &w) && n.signed();
    if ok {
        ensures!(allowed, "handover: both authorities sign, on a mutable asset");
        ensures!(eq(&asset.data.a.authority, &n.key), "handover: the new authority is set");
        ensures_same!(asset, pre, 0, 68, "handover: state, owner and group are kept");
        ensures_same!(asset, pre, 100, 168, "handover: delegate and name are kept");
    }
    ensures!(refused() || asset.lamports == pre.lamports && asset.data_len == pre.data_len && eq(&asset.owner, &pre.owner), "handover: account kept");
    if allowed && (a.standard != PROXIED || pre.signed()) && !eq(&w.owner, &PROGRAM) && !eq(&n.owner, &PROGRAM) {
        ensures!(ok, "handover: an authorized handover is not refused");
    }
    reach!(ok, "handover succeeds");
});

/// `data` updates name and/or mutable flag; no extension.
fn update<const N: usize>(data: [u8; N], name: Option<&[u8]>, mutable: Option<u8>) {
    let mut asset = Acc::<L1<8>>::any();
    let mut authority = Wallet::any();
    let (mut buffer, mut group, mut payer, mut system) = (absent(), absent(), absent(), absent());
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_BLOB, 8, 192, 0];
    let pre = asset;
    let w = authority;
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut buffer), info(&mut group), info(&mut payer), info(&mut system)],
        &data,
    );
    let a = pre.data.a;
    let b = asset.data.a;
    let allowed = gated(&a, eq(&pre.owner, &PROGRAM), &w);
    if ok {
        ensures!(allowed, "update: the authority signs, on a mutable asset");
        ensures!(b.mutable == mutable.unwrap_or(1), "update: the mutable flag is the requested one, or kept");
        match name {
            Some(n) => {
                let i: usize = kani::any();
                kani::assume(i < 35);
                ensures!(b.name[i] == if i < n.len() { n[i] } else { 0 }, "update: the name is the requested one");
            }
            None => ensures_same!(asset, pre, 133, 168, "update: the name is kept"),
        }
        ensures_same!(asset, pre, 0, 3, "update: state and standard are kept");
        ensures_same!(asset, pre, 4, 133, "update: owner, group, authority and delegate are kept");
    }
    ensures_same!(asset, pre, 168, 192, "update: extensions are kept");
    ensures!(refused() || asset.lamports == pre.lamports && asset.data_len == pre.data_len && eq(&asset.owner, &pre.owner), "update: account kept");
    if allowed && (a.standard != PROXIED || pre.signed()) && !eq(&w.owner, &PROGRAM) {
        ensures!(ok, "update: an authorized update is not refused");
    }
    reach!(ok, "update succeeds");
}
proof!(update_nothing, 8, { update([tag::UPDATE, 0, 0, 0], None, None) });
proof!(update_freeze, 8, { update([tag::UPDATE, 0, 1, 0, 0], None, Some(0)) });
proof!(update_name, 8, { update([tag::UPDATE, 1, 3, 0, 0, 0, b'a', b'b', b'c', 0, 0], Some(b"abc"), None) });

/// Resizing keeps the data; only spare room comes and goes.
fn resize<const N: usize>(data: [u8; N], extend: Option<u64>) {
    let mut asset = Acc::<Room<L1<8>, 24>>::any();
    let mut authority = Wallet::any();
    let mut payer = Wallet::any();
    let mut system = Wallet::any();
    system.key = SYSTEM;
    kani::assume(valid_hdr(&asset.data.d.a));
    asset.data.d.e.h = [T_BLOB, 8, 192, 0];
    // 16 bytes of spare room in the account, 8 more behind it
    asset.data.room = [0; 24];
    asset.data_len = 208;
    let pre = asset;
    let (w, p) = (authority, payer);
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut payer), info(&mut system)],
        &data,
    );
    let a = pre.data.d.a;
    let allowed = gated(&a, eq(&pre.owner, &PROGRAM), &w);
    if ok {
        ensures!(allowed, "resize: the authority signs, on a mutable asset");
        let target = match extend {
            Some(n) => 208 + n,
            None => 192,
        };
        ensures!(refused() || asset.data_len == target, "resize: the account has the requested size");
        ensures!(refused() || asset.lamports >= rent_for(target as usize) || target < 208, "resize: a grown account is rent exempt");
        ensures!(refused() || asset.lamports + payer.lamports == pre.lamports + p.lamports, "resize: lamports only move between asset and payer");
        if target < 208 {
            ensures!(refused() || payer.lamports >= p.lamports, "resize: shrinking refunds the payer");
            ensures!(refused() || asset.lamports >= rent_for(192) || payer.lamports == p.lamports, "resize: a shrunk account keeps its rent");
        }
    }
    ensures_same!(asset, pre, 0, 192, "resize: header and extensions are kept");
    ensures!(refused() || eq(&asset.owner, &pre.owner), "resize: program owner kept");
    reach!(ok && asset.lamports == pre.lamports, "resize without transfer");
    reach!(ok && asset.lamports != pre.lamports, "resize with transfer");
}
proof!(resize_trim, 6, { resize([tag::RESIZE, 0], None) });
proof!(resize_extend, 6, { resize([tag::RESIZE, 1, 8, 0], Some(8)) });

/// Removal is gated the same way (what it does to the layout is P15).
proof_direct!(remove_gate, 6, {
    let mut asset = Acc::<L1<8>>::any();
    let mut authority = Wallet::any();
    let mut group = absent();
    let mut recipient = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_BLOB, 8, 192, 0];
    let pre = asset;
    let (w, r) = (authority, recipient);
    let ok = invoke_remove(
        &[info(&mut asset), info(&mut authority), info(&mut group), info(&mut recipient)],
        nifty_asset_types::extensions::ExtensionType::Blob,
    );
    let a = pre.data.a;
    let allowed = gated(&a, eq(&pre.owner, &PROGRAM), &w);
    if ok {
        ensures!(allowed, "remove: the authority signs, on a mutable asset");
        ensures!(refused() || asset.data_len == 168, "remove: the account shrinks");
        ensures!(refused() || asset.lamports + recipient.lamports == pre.lamports + r.lamports, "remove: the freed rent goes to the recipient");
    }
    ensures_same!(asset, pre, 0, 168, "remove: the header is kept");
    ensures!(refused() || eq(&asset.owner, &pre.owner), "remove: program owner kept");
    if allowed && (a.standard != PROXIED || pre.signed()) && !eq(&w.owner, &PROGRAM) && !eq(&r.owner, &PROGRAM) {
        ensures!(ok, "remove: an authorized removal is not refused");
    }
    reach!(ok, "remove succeeds");
});
