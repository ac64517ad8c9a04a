//! P08: group membership and group size stay in step.
use crate::env::*;

fn group_authority(g: &Hdr, d: &GroupingData, w: &Wallet) -> bool {
    w.signed() && (eq(&g.authority, &w.key) || (!eq(&d.delegate, &ZERO) && eq(&d.delegate, &w.key)))
}

fn frame<D: Copy>(asset: &Acc<L0>, pre: &Acc<L0>, group: &Acc<D>, g: &Acc<D>, authority: &Wallet, w: &Wallet) {
    ensures_same!(asset, pre, 0, 36, "state and owner of the asset are kept");
    ensures_same!(asset, pre, 68, 168, "authority, delegate and name of the asset are kept");
    ensures!(
        refused() || asset.lamports == pre.lamports && asset.data_len == pre.data_len && eq(&asset.owner, &pre.owner),
        "the asset account is kept"
    );
    ensures!(
        refused() || group.lamports == g.lamports && group.data_len == g.data_len && eq(&group.owner, &g.owner),
        "the group account is kept"
    );
    ensures_wallet_untouched!(authority, w, "the authority account is untouched");
}

fn run(t: u8) {
    let mut asset = Acc::<L0>::any();
    let mut group = Acc::<T1<GroupingData>>::any();
    let mut authority = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a) && valid_hdr(&group.data.a));
    group.data.e.h = [T_GROUPING, 48, 232, 0];
    // sizes count existing accounts
    kani::assume(group.data.e.d.size < 1 << 62);
    // a member is counted (kept by every instruction of this property and P06)
    kani::assume(!eq(&asset.data.a.group, &group.key) || group.data.e.d.size > 0);
    // the all-zero address belongs to the system program
    kani::assume(!eq(&group.key, &ZERO));
    let pre = asset;
    let g = group;
    let w = authority;
    let ok = invoke(&[info(&mut asset), info(&mut group), info(&mut authority)], &[t]);
    let (a, b) = (pre.data.a, g.data.a);
    let d = g.data.e.d;
    let m = group.data.e.d.size;
    let limit_ok = d.max_size == 0 || d.size < d.max_size;
    let members = is_asset(&pre, &a) && is_asset(&g, &b);
    let fair = members
        && group_authority(&b, &d, &w)
        && (a.standard != PROXIED || pre.signed())
        && !eq(&w.owner, &PROGRAM);
    if t == tag::GROUP {
        let allowed = fair && eq(&a.group, &ZERO) && eq(&a.authority, &b.authority) && limit_ok;
        if ok {
            ensures!(members, "group: asset and group are initialized assets of the program");
            ensures!(group_authority(&b, &d, &w), "group: the group's authority or its delegate signs");
            ensures!(eq(&a.authority, &b.authority), "group: asset and group have the same authority");
            ensures!(eq(&a.group, &ZERO), "group: the asset was in no group");
            ensures!(limit_ok, "group: the size limit is respected");
            ensures!(eq(&asset.data.a.group, &g.key), "group: the asset refers to the group");
            ensures!(m == d.size + 1, "group: the size grows by one");
        }
        if allowed {
            ensures!(ok, "group: an authorized grouping is not refused");
        }
    } else {
        if ok {
            ensures!(members, "ungroup: asset and group are initialized assets of the program");
            ensures!(group_authority(&b, &d, &w), "ungroup: the group's authority or its delegate signs");
            ensures!(eq(&a.group, &g.key), "ungroup: the asset was in that group");
            ensures!(eq(&asset.data.a.group, &ZERO), "ungroup: the asset is in no group");
            ensures!(m == d.size - 1, "ungroup: the size drops by one");
        }
        if fair && eq(&a.group, &g.key) {
            ensures!(ok, "ungroup: an authorized ungrouping is not refused");
        }
    }
    ensures_same!(group, g, 0, 184, "the group's header is kept");
    ensures_same!(group, g, 192, 232, "limit and delegate of the group are kept");
    frame(&asset, &pre, &group, &g, &authority, &w);
    reach!(ok && eq(&b.authority, &w.key), "by the authority");
    reach!(ok && !eq(&b.authority, &w.key), "by the delegate");
}
proof!(group, 6, { run(tag::GROUP) });
proof!(ungroup, 6, { run(tag::UNGROUP) });

/// An asset without a grouping extension is no group.
fn not_a_group(t: u8) {
    let mut asset = Acc::<L0>::any();
    let mut group = Acc::<L1<40>>::any();
    let mut authority = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a) && valid_hdr(&group.data.a));
    let ty: u32 = kani::any();
    kani::assume(ty != T_GROUPING && ty != T_ROYALTIES);
    group.data.e.h = [ty, 40, 224, 0];
    let pre = asset;
    let g = group;
    let w = authority;
    let ok = invoke(&[info(&mut asset), info(&mut group), info(&mut authority)], &[t]);
    ensures!(!ok, "no membership in an asset that is not a group");
    ensures_same!(group, g, 0, 224, "an asset that is not a group is kept");
    frame(&asset, &pre, &group, &g, &authority, &w);
    reach!(!ok && ty == T_MANAGER, "refused");
}
proof!(group_not_a_group, 6, { not_a_group(tag::GROUP) });
proof!(ungroup_not_a_group, 6, { not_a_group(tag::UNGROUP) });
