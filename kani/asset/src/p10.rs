//! P10: a creator counts as verified only by its own signature, and shares
//! always total one hundred.
use crate::env::*;
use nifty_asset_types::extensions::{on_create, on_update, ExtensionType};
use solana_program::pubkey::Pubkey;

pub const CREATOR: usize = 34;

#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct Creator {
    address: Key,
    verified: u8,
    share: u8,
}
/// One creator, padded.
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct One {
    c: Creator,
    pad: [u8; 6],
}
/// Two creators, padded.
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct Two {
    a: Creator,
    b: Creator,
    pad: [u8; 4],
}
fn flag(c: &Creator) -> bool {
    c.verified != 0
}

/// Verify and unverify: only the signer's own entries, and only their flag.
fn verdict(t: u8) {
    let mut asset = Acc::<T1<Two>>::any();
    let mut creator = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_CREATORS, 68, 256, 0];
    let pre = asset;
    let w = creator;
    let ok = invoke(&[info(&mut asset), info(&mut creator)], &[t]);
    let (a, b) = (pre.data.e.d.a, pre.data.e.d.b);
    let (x, y) = (asset.data.e.d.a, asset.data.e.d.b);
    let want = t == tag::VERIFY;
    let (ma, mb) = (eq(&a.address, &w.key), eq(&b.address, &w.key));
    let allowed = is_asset(&pre, &pre.data.a) && w.signed() && (ma || mb);
    if ok {
        ensures!(allowed, "verify/unverify: a listed creator signs for an existing asset");
        ensures!(!ma || flag(&x) == want, "verify/unverify: the creator's own flag is set");
        ensures!(!mb || flag(&y) == want, "verify/unverify: the creator's own flag is set on every entry");
        ensures!(ma || x.verified == a.verified, "verify/unverify: other creators keep their flag");
        ensures!(mb || y.verified == b.verified, "verify/unverify: later creators keep their flag");
    }
    ensures!(refused() || eq(&x.address, &a.address) && eq(&y.address, &b.address) && x.share == a.share && y.share == b.share, "verify/unverify: addresses and shares are kept");
    ensures_same!(asset, pre, 0, 184, "verify/unverify: the rest of the asset is kept");
    ensures!(refused() || asset.lamports == pre.lamports && asset.data_len == pre.data_len && eq(&asset.owner, &pre.owner), "verify/unverify: account kept");
    if allowed && (pre.data.a.standard != PROXIED || pre.signed()) && !eq(&w.owner, &PROGRAM) {
        ensures!(ok, "verify/unverify: a listed creator is not refused");
    }
    reach!(ok && ma, "first creator");
    reach!(ok && !ma && mb, "second creator");
}
proof!(verify, 6, { verdict(tag::VERIFY) });
proof!(unverify, 6, { verdict(tag::UNVERIFY) });

/// A list that enters an asset.
proof!(rule_new_list_exact, 6, {
    let mut l: [Creator; 3] = kani::any();
    let pre = l;
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let key: Key = kani::any();
    let authority = Pubkey::new_from_array(key);
    let with: bool = kani::any();
    let ok = on_create(ExtensionType::Creators, bytes(&mut l, CREATOR * n), if with { Some(&authority) } else { None }).is_ok();
    let mut total = 0u32;
    let mut i = 0;
    while i < n {
        total += pre[i].share as u32;
        if ok {
            ensures!(flag(&l[i]) == (with && eq(&pre[i].address, &key)), "new list: only the signing authority is verified");
        }
        ensures!(eq(&l[i].address, &pre[i].address) && l[i].share == pre[i].share, "new list: addresses and shares are kept");
        i += 1;
    }
    ensures!(ok == (total == 100), "new list: accepted exactly when the shares total 100");
    reach!(ok && n == 3, "three creators");
});

/// A list that replaces another.
fn replace<const O: usize, const N: usize>() {
    let mut old: [Creator; O] = kani::any();
    let mut l: [Creator; N] = kani::any();
    let (o, pre) = (old, l);
    let key: Key = kani::any();
    let authority = Pubkey::new_from_array(key);
    let with: bool = kani::any();
    // entries of one address carry one flag (verify, unverify and every list rule keep it so)
    if O == 2 {
        kani::assume(!eq(&o[0].address, &o[O - 1].address) || flag(&o[0]) == flag(&o[O - 1]));
    }
    let ok = on_update(
        ExtensionType::Creators,
        bytes(&mut old, CREATOR * O),
        bytes(&mut l, CREATOR * N),
        if with { Some(&authority) } else { None },
    )
    .is_ok();
    let mut total = 0u32;
    let mut i = 0;
    while i < N {
        total += pre[i].share as u32;
        let (mut was, mut listed) = (false, false);
        let mut j = 0;
        while j < O {
            if eq(&o[j].address, &pre[i].address) {
                listed = true;
                was = flag(&o[j]);
            }
            j += 1;
        }
        if ok {
            ensures!(flag(&l[i]) == if listed { was } else { with && eq(&pre[i].address, &key) }, "replaced list: flags are inherited, or set for the signing authority");
        }
        ensures!(eq(&l[i].address, &pre[i].address) && l[i].share == pre[i].share, "replaced list: addresses and shares are kept");
        i += 1;
    }
    let mut kept = true;
    let mut j = 0;
    while j < O {
        let mut there = false;
        let mut i = 0;
        while i < N {
            there = there || eq(&o[j].address, &pre[i].address);
            i += 1;
        }
        kept = kept && (!flag(&o[j]) || there);
        j += 1;
    }
    ensures!(!ok || kept, "replaced list: a verified creator is not dropped");
    ensures!(!ok || total == 100, "replaced list: the shares total 100");
    ensures!(ok || total != 100 || !kept, "replaced list: a list that meets the rules is accepted");
    reach!(ok && N == 2 && flag(&l[0]), "a verified creator is carried over");
}
proof!(rule_replace_list_exact, 6, { replace::<2, 2>() });

/// Create, name "n", non-fungible, mutable, one creators extension of 34 bytes.
const HEAD: [u8; 23] = [tag::CREATE, 1, 0, 0, 0, b'n', NON_FUNGIBLE, 1, 1, 1, 0, 0, 0, 3, 34, 0, 0, 0, 1, 34, 0, 0, 0];

/// Creating an asset with a creator given in the instruction.
proof!(create_args, 9, {
    let mut asset = blank::<T1<One>>();
    // an unsigned account is P14
    asset.is_signer = 1;
    let mut authority = Wallet::any();
    let mut owner = Wallet::any();
    let (mut group, mut ga) = (absent(), absent());
    let mut payer = Wallet::any();
    let mut system = Wallet::any();
    payer.key = GROUP_KEY;
    system.key = SYSTEM;
    let c: Creator = kani::any();
    let data = Args { head: HEAD, d: c };
    let buf = data.as_bytes();
    let w = authority;
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut owner), info(&mut group), info(&mut ga), info(&mut payer), info(&mut system)],
        buf,
    );
    if ok {
        let x = asset.data.e.d.c;
        ensures!(eq(&x.address, &c.address) && x.share == c.share && c.share == 100, "create: the list is stored and totals 100");
        ensures!(!flag(&x) || (w.signed() && eq(&w.key, &c.address)), "create: a creator is verified only by its own signature");
    }
    reach!(ok, "create succeeds");
});

/// The account, allocated for one creators extension, not yet an asset.
proof!(create_prepared, 9, {
    let mut asset = Acc::<T1<One>>::any();
    let mut authority = Wallet::any();
    let mut owner = Wallet::any();
    let (mut group, mut ga, mut payer, mut system) = (absent(), absent(), absent(), absent());
    asset.data.e.h = [T_CREATORS, 34, 224, 0];
    let pre = asset;
    let w = authority;
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut owner), info(&mut group), info(&mut ga), info(&mut payer), info(&mut system)],
        &[tag::CREATE, 1, 0, 0, 0, b'n', NON_FUNGIBLE, 1, 0],
    );
    let (c, x) = (pre.data.e.d.c, asset.data.e.d.c);
    if ok {
        ensures!(eq(&x.address, &c.address) && x.share == c.share && c.share == 100, "create from prepared data: the list is kept and totals 100");
        ensures!(!flag(&x) || (w.signed() && eq(&w.key, &c.address)), "create from prepared data: a creator is verified only by its own signature");
    }
    reach!(ok, "create succeeds");
});

/// An update replaces the creators of an existing asset.
fn replaced(ok: bool, asset: &Acc<T1<One>>, pre: &Acc<T1<One>>, given: &Creator, w: &Wallet) {
    let (o, x) = (pre.data.e.d.c, asset.data.e.d.c);
    let same = eq(&o.address, &given.address);
    if ok {
        ensures!(w.signed() && eq(&w.key, &pre.data.a.authority), "update: the authority signs");
        ensures!(eq(&x.address, &given.address) && x.share == given.share, "update: the given list is stored");
        ensures!(x.share == 100, "update: the shares total 100");
        ensures!(flag(&x) == if same { flag(&o) } else { eq(&w.key, &given.address) }, "update: flags are inherited, or set for the signing authority");
        ensures!(!flag(&o) || same, "update: a verified creator is not dropped");
        ensures!(asset.data.e.h[0] == T_CREATORS && asset.data.e.h[1] == 34 && asset.data.e.h[2] == 224 && asset.data_len == 224, "update: the layout is kept");
    }
    ensures_same!(asset, pre, 0, 168, "update: the header is kept");
    reach!(ok && flag(&x) && same, "verified creator kept");
    reach!(ok && flag(&x) && !same, "new creator verified as authority");
}

proof!(update_args, 8, {
    let mut asset = Acc::<T1<One>>::any();
    let mut authority = Wallet::any();
    let (mut buffer, mut group, mut payer, mut system) = (absent(), absent(), absent(), absent());
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_CREATORS, 34, 224, 0];
    let c: Creator = kani::any();
    let data = Args { head: [tag::UPDATE, 0, 0, 1, 3, 34, 0, 0, 0, 1, 34, 0, 0, 0], d: c };
    let pre = asset;
    let w = authority;
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut buffer), info(&mut group), info(&mut payer), info(&mut system)],
        data.as_bytes(),
    );
    replaced(ok, &asset, &pre, &c, &w);
});

proof!(update_buffer, 8, {
    let mut asset = Acc::<T1<One>>::any();
    let mut authority = Wallet::any();
    let mut buffer = Acc::<T1<One>>::any();
    let (mut group, mut payer, mut system) = (absent(), absent(), absent());
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_CREATORS, 34, 224, 0];
    buffer.key = GROUP_KEY;
    buffer.data.e.h = [T_CREATORS, 34, 224, 0];
    let pre = asset;
    let w = authority;
    let b = buffer;
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut buffer), info(&mut group), info(&mut payer), info(&mut system)],
        &[tag::UPDATE, 0, 0, 0],
    );
    ensures!(!ok || (eq(&b.owner, &PROGRAM) && b.data.a.discriminator == 0), "update: the buffer is an uninitialized account of the program");
    replaced(ok, &asset, &pre, &b.data.e.d.c, &w);
});

/// Dropping the whole list by an update without data.
proof!(update_empty, 8, {
    let mut asset = Acc::<T1<One>>::any();
    let mut authority = Wallet::any();
    let (mut buffer, mut group) = (absent(), absent());
    let mut payer = Wallet::any();
    let mut system = Wallet::any();
    payer.key = GROUP_KEY;
    system.key = SYSTEM;
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_CREATORS, 34, 224, 0];
    let none = [tag::UPDATE, 0, 0, 1, 3, 0, 0, 0, 0, 0];
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut buffer), info(&mut group), info(&mut payer), info(&mut system)],
        &none,
    );
    ensures!(!ok, "update: a list without shares is refused");
    reach!(!ok, "refused");
});

/// The first list of an existing asset.
proof!(update_add, 8, {
    let mut asset = Acc::<Room<L0, 56>>::any();
    let mut authority = Wallet::any();
    let (mut buffer, mut group) = (absent(), absent());
    let mut payer = Wallet::any();
    let mut system = Wallet::any();
    payer.key = GROUP_KEY;
    system.key = SYSTEM;
    kani::assume(valid_hdr(&asset.data.d.a));
    asset.data_len = 168;
    asset.data.room = [0; 56];
    let c: Creator = kani::any();
    let data = Args { head: [tag::UPDATE, 0, 0, 1, 3, 34, 0, 0, 0, 1, 34, 0, 0, 0], d: c };
    let w = authority;
    let ok = invoke(
        &[info(&mut asset), info(&mut authority), info(&mut buffer), info(&mut group), info(&mut payer), info(&mut system)],
        data.as_bytes(),
    );
    if ok {
        ensures!(c.share == 100, "first list: the shares total 100");
        ensures!(eq(&asset.mem()[184..216], &c.address) && asset.byte(217) == c.share, "first list: the given list is stored");
        ensures!((asset.byte(216) != 0) == eq(&w.key, &c.address), "first list: only the signing authority is verified");
        ensures!(asset.byte(168) == 3 && asset.byte(172) == 34 && asset.byte(176) == 224 && asset.data_len == 224, "first list: it is a creators extension");
    }
    reach!(ok, "list added");
});
