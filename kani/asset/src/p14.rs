//! P14: creating an asset.
use crate::env::*;

struct Actors {
    authority: Wallet,
    owner: Wallet,
    payer: Wallet,
    system: Wallet,
}
fn actors() -> Actors {
    let mut a = Actors { authority: Wallet::any(), owner: Wallet::any(), payer: Wallet::any(), system: Wallet::any() };
    a.payer.key = GROUP_KEY;
    a.system.key = SYSTEM;
    a
}
fn create<D>(asset: &mut Acc<D>, w: &mut Actors, data: &[u8]) -> bool {
    let (mut group, mut ga) = (absent(), absent());
    invoke(
        &[info(asset), info(&mut w.authority), info(&mut w.owner), info(&mut group), info(&mut ga), info(&mut w.payer), info(&mut w.system)],
        data,
    )
}

/// The header of a new asset called "abc".
fn ensure_new(a: &Hdr, w: &Actors, standard: u8, mutable: u8) {
    ensures!(a.discriminator == 1 && a.state == UNLOCKED, "create: an unlocked asset");
    ensures!(a.standard == standard && a.mutable == mutable, "create: standard and mutability as requested");
    ensures!(eq(&a.owner, &w.owner.key), "create: the owner is the named one");
    ensures!(eq(&a.authority, &w.authority.key), "create: the authority is the named one");
    ensures!(eq(&a.delegate, &ZERO) && a.roles == 0, "create: no delegate");
    let i: usize = kani::any();
    kani::assume(i < 35);
    ensures!(a.name[i] == match i { 0 => b'a', 1 => b'b', 2 => b'c', _ => 0 }, "create: the name is the requested one");
}

/// An account that does not exist yet.
fn fresh(standard: u8, mutable: u8) {
    let mut asset = blank::<L0>();
    let mut w = actors();
    let (pre, p) = (asset, w.payer);
    let ok = create(&mut asset, &mut w, &[tag::CREATE, 3, 0, 0, 0, b'a', b'b', b'c', standard, mutable, 0]);
    if ok {
        ensure_new(&asset.data.a, &w, standard, mutable);
        ensures!(eq(&asset.data.a.group, &ZERO), "create: no group");
        ensures!(pre.signed(), "create: the new account signs");
        ensures!(p.signed(), "create: the payer signs");
        ensures!(eq(&asset.owner, &PROGRAM) && asset.data_len == 168, "create: an account of the program");
        ensures!(refused() || asset.lamports == rent_for(168) && w.payer.lamports == p.lamports - rent_for(168), "create: the payer pays the rent");
    }
    if pre.signed() && p.signed() && !eq(&w.authority.owner, &PROGRAM) && !eq(&w.owner.owner, &PROGRAM) && eq(&p.owner, &SYSTEM) && p.lamports >= rent_for(168) && !eq(&w.system.owner, &PROGRAM) {
        ensures!(ok, "create: a proper creation is not refused");
    }
    reach!(ok, "created");
}
proof!(fresh_non_fungible, 9, { fresh(NON_FUNGIBLE, 1) });
proof!(fresh_soulbound, 9, { fresh(SOULBOUND, 0) });

/// An account that exists: only an uninitialized one of the program, by its signature.
proof!(existing, 9, {
    let mut asset = Acc::<L1<8>>::any();
    // buffers have an empty header (kept by allocate and write, P17)
    if asset.data.a.discriminator == 0 {
        asset.data.a = unsafe { core::mem::zeroed() };
    }
    asset.data.e.h = [T_BUCKET, 8, 192, 0];
    let mut w = actors();
    let pre = asset;
    let p = w.payer;
    let ok = create(&mut asset, &mut w, &[tag::CREATE, 3, 0, 0, 0, b'a', b'b', b'c', NON_FUNGIBLE, 1, 0]);
    if ok {
        ensures!(pre.signed(), "create: the prepared account signs");
        ensures!(eq(&pre.owner, &PROGRAM) && pre.data.a.discriminator == 0, "create: an existing asset is never created again");
        ensure_new(&asset.data.a, &w, NON_FUNGIBLE, 1);
        ensures!(eq(&asset.data.a.group, &ZERO), "create: no group");
        ensures!(refused() || asset.lamports == pre.lamports && asset.data_len == 192 && w.payer.lamports == p.lamports, "create: the prepared account is kept");
    }
    ensures_same!(asset, pre, 168, 192, "create: prepared extension data is kept");
    ensures!(refused() || eq(&asset.owner, &pre.owner), "create: program owner kept");
    reach!(ok, "created from a prepared account");
});

/// Two extensions given with the instruction.
proof!(two_extensions, 9, {
    let mut asset = blank::<L2<8, 16>>();
    asset.is_signer = 1;
    let mut w = actors();
    let p = w.payer;
    #[repr(C)]
    #[derive(Clone, Copy, kani::Arbitrary)]
    struct D {
        first: [u8; 8],
        head: [u8; 10],
        second: [u8; 12],
    }
    let mut d: D = kani::any();
    // blob, 12 bytes, with a content type of one letter
    d.head = [2, 12, 0, 0, 0, 1, 12, 0, 0, 0];
    d.second[0] = 1;
    let data = Args { head: [tag::CREATE, 3, 0, 0, 0, b'a', b'b', b'c', NON_FUNGIBLE, 1, 1, 2, 0, 0, 0, 11, 8, 0, 0, 0, 1, 8, 0, 0, 0], d };
    let ok = create(&mut asset, &mut w, data.as_bytes());
    if ok {
        ensure_new(&asset.data.a, &w, NON_FUNGIBLE, 1);
        let (e, f) = (asset.data.e.h, asset.data.f.h);
        ensures!(e[0] == T_BUCKET && e[1] == 8 && e[2] == 192, "create: the first extension is stored first");
        ensures!(f[0] == T_BLOB && f[1] == 12 && f[2] == 224, "create: the second extension follows");
        let i: usize = kani::any();
        kani::assume(i < 12);
        ensures!(i >= 8 || asset.data.e.d[i] == d.first[i], "create: data of the first extension");
        ensures!(asset.data.f.d[i] == d.second[i], "create: data of the second extension");
        ensures!(refused() || asset.data_len == 224 && asset.lamports == rent_for(224) && w.payer.lamports == p.lamports - rent_for(224), "create: the payer pays the rent for all of it");
    }
    reach!(ok, "created with two extensions");
});

/// Creating a member of a group follows the rules of joining one.
proof!(grouped, 9, {
    let mut asset = Acc::<L0>::any();
    if asset.data.a.discriminator == 0 {
        asset.data.a = unsafe { core::mem::zeroed() };
    }
    let mut group = Acc::<T1<GroupingData>>::any();
    kani::assume(valid_hdr(&group.data.a));
    group.data.e.h = [T_GROUPING, 48, 232, 0];
    group.key = GROUP_KEY;
    kani::assume(group.data.e.d.size < 1 << 62);
    let mut w = actors();
    let mut ga = Wallet::any();
    let pre = asset;
    let g = group;
    let s = ga;
    let ok = invoke(
        &[info(&mut asset), info(&mut w.authority), info(&mut w.owner), info(&mut group), info(&mut ga), info(&mut w.payer), info(&mut w.system)],
        &[tag::CREATE, 3, 0, 0, 0, b'a', b'b', b'c', NON_FUNGIBLE, 1, 0],
    );
    let d = g.data.e.d;
    let named = if eq(&s.key, &PROGRAM) { w.authority } else { s };
    if ok {
        ensure_new(&asset.data.a, &w, NON_FUNGIBLE, 1);
        ensures!(pre.signed() && pre.data.a.discriminator == 0, "grouped: the prepared account signs");
        ensures!(is_asset(&g, &g.data.a), "grouped: the group is an asset of the program");
        ensures!(named.signed() && (eq(&g.data.a.authority, &named.key) || (!eq(&d.delegate, &ZERO) && eq(&d.delegate, &named.key))), "grouped: the group's authority or its delegate signs");
        ensures!(eq(&g.data.a.authority, &w.authority.key), "grouped: asset and group have the same authority");
        ensures!(d.max_size == 0 || d.size < d.max_size, "grouped: the size limit is respected");
        ensures!(eq(&asset.data.a.group, &g.key), "grouped: the asset refers to the group");
        ensures!(group.data.e.d.size == d.size + 1, "grouped: the size grows by one");
    }
    ensures_same!(group, g, 0, 184, "grouped: the group's header is kept");
    ensures_same!(group, g, 192, 232, "grouped: limit and delegate of the group are kept");
    reach!(ok && eq(&s.key, &g.data.a.authority), "by the group authority");
    reach!(ok && !eq(&s.key, &g.data.a.authority), "by the delegate");
});
