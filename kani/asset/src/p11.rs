//! P11: the rules of the grouping, royalties and proxy extensions hold on
//! every route into an asset.
use crate::env::*;
use nifty_asset_types::extensions::{on_create, on_update, ExtensionType};

// ---- the rules

proof!(rule_grouping_new, 6, {
    let mut d: GroupingData = kani::any();
    let pre = d;
    let ok = on_create(ExtensionType::Grouping, bytes(&mut d, 48), None).is_ok();
    ensures!(ok == (pre.size == 0), "new group: accepted exactly when it starts empty");
    ensures!(!ok || (d.size == 0 && d.max_size == pre.max_size && eq(&d.delegate, &pre.delegate)), "new group: limit and delegate are kept");
    reach!(ok, "accepted");
});
proof!(rule_grouping_replace, 6, {
    let mut old: GroupingData = kani::any();
    let mut d: GroupingData = kani::any();
    let (o, pre) = (old, d);
    let ok = on_update(ExtensionType::Grouping, bytes(&mut old, 48), bytes(&mut d, 48), None).is_ok();
    ensures!(ok == (pre.max_size == 0 || pre.max_size >= o.size), "replaced group: accepted exactly when the limit admits the members");
    ensures!(!ok || (d.size == o.size && d.max_size == pre.max_size && eq(&d.delegate, &pre.delegate)), "replaced group: the size is kept, limit and delegate are the given ones");
    reach!(ok && pre.size != o.size, "size preserved");
});
proof_royalties!(rule_royalties, 6, {
    let mut old: RoyaltiesData = kani::any();
    let mut d: RoyaltiesData = kani::any();
    let pre = d;
    let ok = if kani::any() {
        on_create(ExtensionType::Royalties, bytes(&mut d, 56), None).is_ok()
    } else {
        on_update(ExtensionType::Royalties, bytes(&mut old, 56), bytes(&mut d, 56), None).is_ok()
    };
    ensures!(ok == (pre.basis_points <= 10_000), "royalties: accepted exactly up to 10000 basis points");
    ensures!(d.basis_points == pre.basis_points && eq(&d.key, &pre.key), "royalties: the data is kept");
    reach!(ok, "accepted");
});

proof!(rule_proxy_replace, 6, {
    let mut old: ProxyData = kani::any();
    let mut d: ProxyData = kani::any();
    let (o, pre) = (old, d);
    let ok = on_update(ExtensionType::Proxy, bytes(&mut old, 97), bytes(&mut d, 97), None).is_ok();
    let same = eq(&o.program, &pre.program) && eq(&o.seeds, &pre.seeds) && o.bump == pre.bump;
    ensures!(ok == same, "proxy: accepted exactly when program, seeds and bump are kept");
    ensures!(eq(&d.authority, &pre.authority), "proxy: the authority is the given one");
    reach!(ok, "accepted");
});

// ---- the routes

#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary)]
pub struct GroupingBytes {
    size: [u8; 8],
    max: [u8; 8],
    delegate: Key,
}

struct Update {
    authority: Wallet,
    payer: Wallet,
    system: Wallet,
}
fn update<D, B>(asset: &mut Acc<D>, buffer: &mut Acc<B>, u: &mut Update, data: &[u8]) -> bool {
    let mut group = absent();
    invoke(
        &[info(asset), info(&mut u.authority), info(buffer), info(&mut group), info(&mut u.payer), info(&mut u.system)],
        data,
    )
}
fn actors() -> Update {
    let mut u = Update { authority: Wallet::any(), payer: Wallet::any(), system: Wallet::any() };
    u.payer.key = GROUP_KEY;
    u.system.key = SYSTEM;
    u
}

fn group_replaced(ok: bool, asset: &Acc<T1<GroupingData>>, pre: &Acc<T1<GroupingData>>, max: u64, delegate: &Key) {
    let (o, d) = (pre.data.e.d, asset.data.e.d);
    ensures!(refused() || d.size == o.size, "group update: the size is kept");
    if ok {
        ensures!(max == 0 || max >= o.size, "group update: the limit admits the members");
        ensures!(d.max_size == max && eq(&d.delegate, delegate), "group update: limit and delegate are the given ones");
    }
    let h = asset.data.e.h;
    ensures!(refused() || h[0] == T_GROUPING && h[1] == 48 && h[2] == 232 && asset.data_len == 232, "group update: the layout is kept");
    reach!(ok && o.size > 0 && max > o.size, "a group with members is updated");
}
proof!(group_update_args, 8, {
    let mut asset = Acc::<T1<GroupingData>>::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_GROUPING, 48, 232, 0];
    let d: GroupingBytes = kani::any();
    let data = Args { head: [tag::UPDATE, 0, 0, 1, 6, 48, 0, 0, 0, 1, 48, 0, 0, 0], d };
    let pre = asset;
    let ok = update(&mut asset, &mut absent(), &mut actors(), data.as_bytes());
    group_replaced(ok, &asset, &pre, u64::from_le_bytes(d.max), &d.delegate);
});
proof!(group_update_buffer, 8, {
    let mut asset = Acc::<T1<GroupingData>>::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_GROUPING, 48, 232, 0];
    let mut buffer = Acc::<T1<GroupingData>>::any();
    buffer.key = GROUP_KEY;
    buffer.data.e.h = [T_GROUPING, 48, 232, 0];
    let pre = asset;
    let d = buffer.data.e.d;
    let ok = update(&mut asset, &mut buffer, &mut actors(), &[tag::UPDATE, 0, 0, 0]);
    group_replaced(ok, &asset, &pre, d.max_size, &d.delegate);
});

#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary)]
pub struct RoyaltiesBytes {
    points: [u8; 8],
    constraint: [u8; 16],
    key: Key,
}
fn royalties_replaced(ok: bool, asset: &Acc<T1<RoyaltiesData>>, points: u64, key: &Key) {
    let d = asset.data.e.d;
    if ok {
        ensures!(d.basis_points == points && points <= 10_000 && eq(&d.key, key), "royalties update: the given royalties, at most 10000 basis points");
    }
    reach!(ok, "royalties updated");
}
proof_royalties!(royalties_update_args, 8, {
    let mut asset = Acc::<T1<RoyaltiesData>>::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_ROYALTIES, 56, 240, 0];
    let mut d: RoyaltiesBytes = kani::any();
    d.constraint = [4, 0, 0, 0, 40, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0];
    let data = Args { head: [tag::UPDATE, 0, 0, 1, 7, 56, 0, 0, 0, 1, 56, 0, 0, 0], d };
    let ok = update(&mut asset, &mut absent(), &mut actors(), data.as_bytes());
    royalties_replaced(ok, &asset, u64::from_le_bytes(d.points), &d.key);
});
proof_royalties!(royalties_update_buffer, 8, {
    let mut asset = Acc::<T1<RoyaltiesData>>::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_ROYALTIES, 56, 240, 0];
    let mut buffer = Acc::<T1<RoyaltiesData>>::any();
    buffer.key = GROUP_KEY;
    buffer.data.e.h = [T_ROYALTIES, 56, 240, 0];
    buffer.data.e.d.op = [4, 40];
    let d = buffer.data.e.d;
    let ok = update(&mut asset, &mut buffer, &mut actors(), &[tag::UPDATE, 0, 0, 0]);
    royalties_replaced(ok, &asset, d.basis_points, &d.key);
});

/// These extensions are never left without data.
fn emptied<D: kani::Arbitrary + Copy>(h: [u32; 4], set: fn(&mut Acc<T1<D>>, [u32; 4])) {
    let mut asset = Acc::<T1<D>>::any();
    set(&mut asset, h);
    reach!(valid_hdr(&asset.data.a), "an asset with the extension");
    let ok = update(&mut asset, &mut absent(), &mut actors(), &[tag::UPDATE, 0, 0, 1, h[0] as u8, 0, 0, 0, 0, 0]);
    ensures!(!ok, "an update without data does not wipe the extension");
}
proof!(group_emptied, 8, { emptied::<GroupingData>([T_GROUPING, 48, 232, 0], |a, h| a.data.e.h = h) });
proof_royalties!(royalties_emptied, 8, { emptied::<RoyaltiesData>([T_ROYALTIES, 56, 240, 0], |a, h| { a.data.e.h = h; a.data.e.d.op = [4, 40] }) });

fn create<D>(asset: &mut Acc<D>, standard: u8) -> bool {
    let mut authority = Wallet::any();
    let mut owner = Wallet::any();
    let (mut group, mut ga, mut payer, mut system) = (absent(), absent(), absent(), absent());
    invoke(
        &[info(asset), info(&mut authority), info(&mut owner), info(&mut group), info(&mut ga), info(&mut payer), info(&mut system)],
        &[tag::CREATE, 1, 0, 0, 0, b'n', standard, 1, 0],
    )
}
proof!(group_created, 9, {
    let mut asset = Acc::<T1<GroupingData>>::any();
    asset.data.e.h = [T_GROUPING, 48, 232, 0];
    let pre = asset;
    let ok = create(&mut asset, NON_FUNGIBLE);
    ensures!(!ok || pre.data.e.d.size == 0, "create: a group starts empty");
    ensures_same!(asset, pre, 168, 232, "create: the group data is kept");
    reach!(ok, "a group is created");
});
proof_royalties!(royalties_created, 9, {
    let mut asset = Acc::<T1<RoyaltiesData>>::any();
    asset.data.e.h = [T_ROYALTIES, 56, 240, 0];
    asset.data.e.d.op = [4, 40];
    let pre = asset;
    let ok = create(&mut asset, NON_FUNGIBLE);
    ensures!(!ok || pre.data.e.d.basis_points <= 10_000, "create: royalties of at most 10000 basis points");
    ensures_same!(asset, pre, 168, 240, "create: the royalties data is kept");
    reach!(ok, "royalties created");
});

/// A group with members keeps its grouping extension.
proof_direct!(group_removed, 6, {
    let mut asset = Acc::<T1<GroupingData>>::any();
    asset.data.e.h = [T_GROUPING, 48, 232, 0];
    let mut authority = Wallet::any();
    let mut group = absent();
    let mut recipient = Wallet::any();
    let pre = asset;
    let ok = invoke_remove(&[info(&mut asset), info(&mut authority), info(&mut group), info(&mut recipient)], ExtensionType::Grouping);
    ensures!(!ok || pre.data.e.d.size == 0, "remove: a group with members stays a group");
    reach!(ok, "an empty group is removed");
});
