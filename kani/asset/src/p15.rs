//! P15: changing one extension leaves the others as they were and the account
//! well formed.  (Who may change them is P07, what they may contain P10-P12.)
use crate::env::*;
use asset_program::instruction::{ExtensionInput, UpdateInput};
use nifty_asset_types::extensions::ExtensionType;

/// An asset of the program whose authority signs; extension data is arbitrary.
fn ready<D: kani::Arbitrary>(len: u64) -> Acc<D> {
    let mut asset = Acc::<D>::any();
    asset.owner = PROGRAM;
    asset.data_len = len;
    asset
}
fn header(a: &mut Hdr, authority: &Wallet) {
    a.discriminator = 1;
    a.state = UNLOCKED;
    a.standard = NON_FUNGIBLE;
    a.mutable = 1;
    a.authority = authority.key;
}
struct Actors {
    authority: Wallet,
    payer: Wallet,
    system: Wallet,
}
fn actors() -> Actors {
    let mut u = Actors { authority: Wallet::any(), payer: Wallet::any(), system: Wallet::any() };
    u.authority.is_signer = 1;
    u.authority.owner = SYSTEM;
    u.payer.key = GROUP_KEY;
    u.payer.is_signer = 1;
    u.payer.owner = SYSTEM;
    u.system.key = SYSTEM;
    u.system.owner = SYSTEM;
    u
}
fn update<D, B>(asset: &mut Acc<D>, buffer: &mut Acc<B>, u: &mut Actors, extension: Option<(ExtensionType, &[u8])>) -> bool {
    let mut group = absent();
    let extension = extension.map(|(extension_type, d)| ExtensionInput { extension_type, length: d.len() as u32, data: Some(d.to_vec()) });
    invoke_update(
        &[info(asset), info(&mut u.authority), info(buffer), info(&mut group), info(&mut u.payer), info(&mut u.system)],
        UpdateInput { name: None, mutable: None, extension },
    )
}
fn remove<D>(asset: &mut Acc<D>, u: &mut Actors, kind: ExtensionType) -> bool {
    let mut group = absent();
    invoke_remove(&[info(asset), info(&mut u.authority), info(&mut group), info(&mut u.payer)], kind)
}

/// The extension at `at` has this kind, length, boundary and data.
macro_rules! ensures_ext {
    ($asset:expr, $at:expr, $kind:expr, $len:expr, $end:expr, $data:expr, $m:literal) => {{
        let w = |o: usize| u32::from_le_bytes([$asset.byte($at + o), $asset.byte($at + o + 1), $asset.byte($at + o + 2), $asset.byte($at + o + 3)]);
        kani::assert(w(0) == $kind && w(4) == $len && w(8) == $end, concat!("POST: ", $m, ": kind, length and boundary"));
        let i: usize = kani::any();
        if i < $len as usize {
            let data = $data;
            kani::assert($asset.byte($at + 16 + i) == data[i], concat!("POST: ", $m, ": data"));
        }
    }};
}
/// Size and rent: growth is paid by the payer, what is freed goes to it.
fn ensure_paid<D>(asset: &Acc<D>, pre: &Acc<D>, u: &Actors, payer: &Wallet, size: u64) {
    ensures!(refused() || asset.data_len == size, "the account has the size of its extensions");
    ensures!(
        refused() || asset.lamports as u128 + u.payer.lamports as u128 == pre.lamports as u128 + payer.lamports as u128,
        "lamports move between the account and the payer only"
    );
    ensures!(refused() || asset.lamports >= rent_for(size as usize) || asset.lamports >= pre.lamports, "the account stays rent exempt");
    ensures!(eq(&asset.owner, &PROGRAM), "the account stays with the program");
}

/// Replace the first (8 bytes of bucket) of two extensions by `$new` bytes.
macro_rules! proof_replace_first {
    ($name:ident, $new:literal, $end:literal, $room:literal) => {
        proof_direct!($name, 8, {
            let mut asset = ready::<Room<L2<8, 24>, $room>>(232);
            let mut u = actors();
            header(&mut asset.data.d.a, &u.authority);
            asset.data.d.e.h = [T_BUCKET, 8, 192, 0];
            asset.data.d.f.h = [T_LINKS, 20, 232, 0];
            asset.data.room = [0; $room];
            let d: [u8; $new] = kani::any();
            let (pre, payer) = (asset, u.payer);
            let ok = update(&mut asset, &mut absent(), &mut u, Some((ExtensionType::Bucket, &d)));
            if ok {
                ensures_ext!(asset, 168, T_BUCKET, $new, $end, d, "the replaced extension");
                ensures_ext!(asset, $end, T_LINKS, 20, $end + 40, pre.data.d.f.d, "the extension behind a replaced one");
                ensure_paid(&asset, &pre, &u, &payer, $end + 40);
            }
            ensures_same!(asset, pre, 0, 168, "the header is kept");
            if pre.lamports >= rent_for(232) && payer.lamports >= 1 << 40 {
                ensures!(ok, "a proper replacement is not refused");
            }
            reach!(ok, "replaced");
        });
    };
}
proof_replace_first!(first_same, 8, 192, 0);
proof_replace_first!(first_grows, 13, 200, 8);
proof_replace_first!(first_shrinks, 0, 184, 0);
proof_replace_first!(first_within_padding, 5, 192, 0);

/// Replace the second of two.
proof_direct!(second_grows, 8, {
    let mut asset = ready::<Room<L2<8, 8>, 16>>(216);
    let mut u = actors();
    header(&mut asset.data.d.a, &u.authority);
    asset.data.d.e.h = [T_LINKS, 6, 192, 0];
    asset.data.d.f.h = [T_BUCKET, 8, 216, 0];
    asset.data.room = [0; 16];
    let d: [u8; 17] = kani::any();
    let (pre, payer) = (asset, u.payer);
    let ok = update(&mut asset, &mut absent(), &mut u, Some((ExtensionType::Bucket, &d)));
    if ok {
        ensures_ext!(asset, 168, T_LINKS, 6, 192, pre.data.d.e.d, "the extension before a replaced one");
        ensures_ext!(asset, 192, T_BUCKET, 17, 232, d, "the replaced extension");
        ensure_paid(&asset, &pre, &u, &payer, 232);
    }
    ensures_same!(asset, pre, 0, 168, "the header is kept");
    if pre.lamports >= rent_for(216) && payer.lamports >= 1 << 40 {
        ensures!(ok, "a proper replacement is not refused");
    }
    reach!(ok, "replaced");
});

/// Three extensions, the first one grows: all later boundaries move.
proof_direct!(first_of_three_grows, 8, {
    let mut asset = ready::<Room<L3<8, 8, 8>, 8>>(240);
    let mut u = actors();
    header(&mut asset.data.d.a, &u.authority);
    asset.data.d.e.h = [T_BUCKET, 8, 192, 0];
    asset.data.d.f.h = [T_LINKS, 6, 216, 0];
    asset.data.d.g.h = [T_METADATA, 8, 240, 0];
    asset.data.room = [0; 8];
    let d: [u8; 16] = kani::any();
    let (pre, payer) = (asset, u.payer);
    let ok = update(&mut asset, &mut absent(), &mut u, Some((ExtensionType::Bucket, &d)));
    if ok {
        ensures_ext!(asset, 168, T_BUCKET, 16, 200, d, "the replaced extension");
        ensures_ext!(asset, 200, T_LINKS, 6, 224, pre.data.d.f.d, "the second extension");
        ensures_ext!(asset, 224, T_METADATA, 8, 248, pre.data.d.g.d, "the third extension");
        ensure_paid(&asset, &pre, &u, &payer, 248);
    }
    reach!(ok, "replaced");
});

/// Add a second extension; `$len` is the account's size before (room behind
/// the first extension, if any, is used).
macro_rules! proof_add {
    ($name:ident, $len:literal) => {
        proof_direct!($name, 8, {
            let mut asset = ready::<Room<L1<8>, 40>>($len);
            let mut u = actors();
            header(&mut asset.data.d.a, &u.authority);
            asset.data.d.e.h = [T_LINKS, 6, 192, 0];
            asset.data.room = [0; 40];
            let d: [u8; 13] = kani::any();
            let (pre, payer) = (asset, u.payer);
            let ok = update(&mut asset, &mut absent(), &mut u, Some((ExtensionType::Bucket, &d)));
            if ok {
                ensures_ext!(asset, 168, T_LINKS, 6, 192, pre.data.d.e.d, "the extension already there");
                ensures_ext!(asset, 192, T_BUCKET, 13, 224, d, "the added extension");
                ensure_paid(&asset, &pre, &u, &payer, 224);
            }
            ensures_same!(asset, pre, 0, 168, "the header is kept");
            if pre.lamports >= rent_for($len) && payer.lamports >= 1 << 40 {
                ensures!(ok, "a proper addition is not refused");
            }
            reach!(ok, "added");
        });
    };
}
proof_add!(added, 192);
proof_add!(added_in_small_room, 200);
proof_add!(added_in_room, 224);

/// An update of the only extension of an account with `$room` bytes of room.
macro_rules! proof_with_room {
    ($name:ident, $room:literal, $new:literal) => {
        proof_direct!($name, 8, {
            let mut asset = ready::<Room<L1<8>, $room>>(192 + $room);
            let mut u = actors();
            header(&mut asset.data.d.a, &u.authority);
            asset.data.d.e.h = [T_BUCKET, 8, 192, 0];
            asset.data.room = [0; $room];
            let d: [u8; $new] = kani::any();
            let pre = asset;
            let ok = update(&mut asset, &mut absent(), &mut u, Some((ExtensionType::Bucket, &d)));
            if ok {
                ensures_ext!(asset, 168, T_BUCKET, $new, 192, d, "the replaced extension");
            }
            ensures_same!(asset, pre, 0, 168, "the header is kept");
            ensures!(ok, "an update of an account with room is not refused");
            reach!(ok, "updated");
        });
    };
}
proof_with_room!(small_room_total, 8, 8);
proof_with_room!(room_total, 24, 8);
proof_with_room!(room_shorter_total, 24, 6);

/// Room behind the extensions goes when they are moved.
proof_direct!(first_grows_with_room, 8, {
    let mut asset = ready::<Room<L2<8, 8>, 24>>(240);
    let mut u = actors();
    header(&mut asset.data.d.a, &u.authority);
    asset.data.d.e.h = [T_BUCKET, 8, 192, 0];
    asset.data.d.f.h = [T_LINKS, 6, 216, 0];
    asset.data.room = [0; 24];
    let d: [u8; 13] = kani::any();
    let (pre, payer) = (asset, u.payer);
    let ok = update(&mut asset, &mut absent(), &mut u, Some((ExtensionType::Bucket, &d)));
    if ok {
        ensures_ext!(asset, 168, T_BUCKET, 13, 200, d, "the replaced extension");
        ensures_ext!(asset, 200, T_LINKS, 6, 224, pre.data.d.f.d, "the extension behind a replaced one");
        ensures!(refused() || asset.data_len >= 224, "the account holds its extensions");
        ensures!(refused() || asset.lamports as u128 + u.payer.lamports as u128 == pre.lamports as u128 + payer.lamports as u128, "lamports move between the account and the payer only");
    }
    ensures!(ok, "a proper replacement is not refused");
    reach!(ok, "replaced");
});

/// From a buffer.
proof_direct!(first_grows_from_buffer, 8, {
    let mut asset = ready::<Room<L2<8, 24>, 8>>(232);
    let mut u = actors();
    header(&mut asset.data.d.a, &u.authority);
    asset.data.d.e.h = [T_BUCKET, 8, 192, 0];
    asset.data.d.f.h = [T_LINKS, 20, 232, 0];
    asset.data.room = [0; 8];
    let mut buffer = Acc::<L1<16>>::any();
    buffer.owner = PROGRAM;
    buffer.key = [0x42; 32];
    buffer.data.a = unsafe { core::mem::zeroed() };
    buffer.data.e.h = [T_BUCKET, 13, 200, 0];
    let (pre, payer, b) = (asset, u.payer, buffer);
    let ok = update(&mut asset, &mut buffer, &mut u, None);
    if ok {
        ensures_ext!(asset, 168, T_BUCKET, 13, 200, b.data.e.d, "the replaced extension");
        ensures_ext!(asset, 200, T_LINKS, 20, 240, pre.data.d.f.d, "the extension behind a replaced one");
        ensure_paid(&asset, &pre, &u, &payer, 240);
    }
    ensures!(refused() || buffer.lamports == b.lamports && buffer.data_len == b.data_len && eq(&buffer.owner, &PROGRAM), "the buffer stays");
    reach!(ok, "replaced");
});

// ---- remove

/// Two extensions, remove the first.
proof_direct!(remove_first, 8, {
    let mut asset = ready::<L2<8, 24>>(232);
    let mut u = actors();
    header(&mut asset.data.a, &u.authority);
    asset.data.e.h = [T_BUCKET, 8, 192, 0];
    asset.data.f.h = [T_LINKS, 20, 232, 0];
    let (pre, payer) = (asset, u.payer);
    let ok = remove(&mut asset, &mut u, ExtensionType::Bucket);
    if ok {
        ensures_ext!(asset, 168, T_LINKS, 20, 208, pre.data.f.d, "the extension behind a removed one");
        ensure_paid(&asset, &pre, &u, &payer, 208);
    }
    ensures_same!(asset, pre, 0, 168, "the header is kept");
    ensures!(ok, "a proper removal is not refused");
    reach!(ok, "removed");
});
proof_direct!(remove_last, 8, {
    let mut asset = ready::<L2<8, 24>>(232);
    let mut u = actors();
    header(&mut asset.data.a, &u.authority);
    asset.data.e.h = [T_LINKS, 8, 192, 0];
    asset.data.f.h = [T_BUCKET, 20, 232, 0];
    let (pre, payer) = (asset, u.payer);
    let ok = remove(&mut asset, &mut u, ExtensionType::Bucket);
    if ok {
        ensures_ext!(asset, 168, T_LINKS, 8, 192, pre.data.e.d, "the extension before a removed one");
        ensure_paid(&asset, &pre, &u, &payer, 192);
    }
    ensures_same!(asset, pre, 0, 168, "the header is kept");
    ensures!(ok, "a proper removal is not refused");
    reach!(ok, "removed");
});
proof_direct!(remove_middle, 8, {
    let mut asset = ready::<L3<8, 8, 8>>(240);
    let mut u = actors();
    header(&mut asset.data.a, &u.authority);
    asset.data.e.h = [T_BLOB, 8, 192, 0];
    asset.data.f.h = [T_BUCKET, 6, 216, 0];
    asset.data.g.h = [T_LINKS, 8, 240, 0];
    let (pre, payer) = (asset, u.payer);
    let ok = remove(&mut asset, &mut u, ExtensionType::Bucket);
    if ok {
        ensures_ext!(asset, 168, T_BLOB, 8, 192, pre.data.e.d, "the extension before a removed one");
        ensures_ext!(asset, 192, T_LINKS, 8, 216, pre.data.g.d, "the extension behind a removed one");
        ensure_paid(&asset, &pre, &u, &payer, 216);
    }
    ensures!(ok, "a proper removal is not refused");
    reach!(ok, "removed");
});
proof_direct!(remove_first_with_room, 8, {
    let mut asset = ready::<Room<L2<8, 8>, 24>>(240);
    let mut u = actors();
    header(&mut asset.data.d.a, &u.authority);
    asset.data.d.e.h = [T_BUCKET, 8, 192, 0];
    asset.data.d.f.h = [T_LINKS, 6, 216, 0];
    asset.data.room = [0; 24];
    let (pre, payer) = (asset, u.payer);
    let ok = remove(&mut asset, &mut u, ExtensionType::Bucket);
    if ok {
        ensures_ext!(asset, 168, T_LINKS, 6, 192, pre.data.d.f.d, "the extension behind a removed one");
        let i: usize = kani::any();
        kani::assume(192 <= i && i < 216);
        ensures!(i as u64 >= asset.data_len || asset.byte(i) == 0, "room stays empty");
        ensures!(refused() || asset.data_len >= 192 && asset.data_len <= 216, "the account holds its extensions");
        ensures!(refused() || asset.lamports as u128 + u.payer.lamports as u128 == pre.lamports as u128 + payer.lamports as u128, "lamports move between the account and the payer only");
    }
    ensures!(ok, "a proper removal is not refused");
    reach!(ok, "removed");
});
/// An extension without data, in last place.
proof_direct!(remove_empty_last, 8, {
    let mut asset = ready::<L2<8, 0>>(208);
    let mut u = actors();
    header(&mut asset.data.a, &u.authority);
    asset.data.e.h = [T_LINKS, 8, 192, 0];
    asset.data.f.h = [T_BUCKET, 0, 208, 0];
    let (pre, payer) = (asset, u.payer);
    let ok = remove(&mut asset, &mut u, ExtensionType::Bucket);
    if ok {
        ensures_ext!(asset, 168, T_LINKS, 8, 192, pre.data.e.d, "the extension before a removed one");
        ensure_paid(&asset, &pre, &u, &payer, 192);
    }
    ensures!(ok, "a proper removal is not refused");
    reach!(ok, "removed");
});
/// Nothing to remove; room is not an extension.
fn absent_kind(kind: ExtensionType) {
    let mut asset = ready::<Room<L1<8>, 24>>(216);
    let mut u = actors();
    header(&mut asset.data.d.a, &u.authority);
    asset.data.d.e.h = [T_LINKS, 8, 192, 0];
    asset.data.room = [0; 24];
    let pre = asset;
    let ok = remove(&mut asset, &mut u, kind);
    ensures!(!ok, "an absent extension is not removed");
    ensures_same!(asset, pre, 0, 216, "a refused removal changes nothing");
    ensures!(refused() || asset.data_len == 216 && asset.lamports == pre.lamports, "a refused removal frees nothing");
    reach!(!ok, "refused");
}
proof_direct!(remove_absent, 8, { absent_kind(ExtensionType::Bucket) });
proof_direct!(remove_none, 8, { absent_kind(ExtensionType::None) });
/// An update without a kind is refused, room or not.
macro_rules! proof_none {
    ($name:ident, $len:literal) => {
        proof_direct!($name, 8, {
            let mut asset = ready::<Room<L1<8>, 24>>($len);
            let mut u = actors();
            header(&mut asset.data.d.a, &u.authority);
            asset.data.d.e.h = [T_LINKS, 8, 192, 0];
            asset.data.room = [0; 24];
            let d: [u8; 8] = kani::any();
            let kind = ExtensionType::None;
            reach!(u.payer.lamports > 1 << 40, "a funded payer");
            let ok = update(&mut asset, &mut absent(), &mut u, Some((kind, &d)));
            ensures!(!ok, "an extension of no kind is not stored");
        });
    };
}
proof_none!(none_added, 192);
proof_none!(none_in_room, 216);
