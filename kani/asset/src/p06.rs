//! P06: who may burn an asset, and what a burn does.
use crate::env::*;

fn closed<D>(now: &Acc<D>) -> bool {
    now.lamports == 0 && now.data_len == 0 && eq(&now.owner, &SYSTEM)
}

fn allowed<D>(pre: &Acc<D>, a: &Hdr, signer: &Wallet, by_manager: bool) -> bool {
    is_asset(pre, a)
        && a.state == UNLOCKED
        && signer.signed()
        && (a.standard != PROXIED || pre.signed())
        && (eq(&a.owner, &signer.key) || is_delegate(a, &signer.key, ROLE_BURN) || by_manager)
}

/// An asset without a group, with or without a refund recipient.
fn ungrouped(with_recipient: bool) {
    let mut asset = Acc::<T1<ManagerData>>::any();
    let mut signer = Wallet::any();
    let mut recipient = if with_recipient { Wallet::any() } else { absent() };
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    let pre = asset;
    let (s, r) = (signer, recipient);
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::BURN],
    );
    let a = pre.data.a;
    let m = pre.data.e.d;
    let by_manager = eq(&m.delegate, &s.key) && m.roles & ROLE_BURN != 0;
    let allowed = allowed(&pre, &a, &s, by_manager);
    if ok {
        ensures!(allowed, "only the owner, the burn delegate or the burn manager of an unlocked asset, by signature");
        ensures!(eq(&a.group, &ZERO), "a grouped asset needs its group");
        ensures!(closed(&asset), "the account is closed");
        if with_recipient && !eq(&r.key, &PROGRAM) {
            ensures!(refused() || recipient.lamports == r.lamports + pre.lamports, "the recipient gets the lamports");
            ensures!(refused() || signer.lamports == s.lamports, "the signer's balance is kept");
        } else {
            ensures!(refused() || signer.lamports == s.lamports + pre.lamports, "the signer gets the lamports");
            ensures!(refused() || recipient.lamports == r.lamports, "no other balance changes");
        }
    }
    if allowed && eq(&a.group, &ZERO) && !eq(&s.owner, &PROGRAM) && !eq(&r.owner, &PROGRAM) {
        ensures!(ok, "an authorized burn is not refused");
    }
    reach!(ok && by_manager && !eq(&a.owner, &s.key), "the manager burns");
    reach!(ok && eq(&a.owner, &s.key), "the owner burns");
}
proof!(refund_signer, 6, { ungrouped(false) });
proof!(refund_recipient, 6, { ungrouped(true) });

/// A group asset is burnt only when it is empty.
proof!(group_asset, 6, {
    let mut asset = Acc::<T1<GroupingData>>::any();
    let mut signer = Wallet::any();
    let mut recipient = absent();
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_GROUPING, 48, 232, 0];
    let pre = asset;
    let s = signer;
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::BURN],
    );
    let a = pre.data.a;
    if ok {
        ensures!(allowed(&pre, &a, &s, false), "group: only the owner or the burn delegate of an unlocked asset, by signature");
        ensures!(pre.data.e.d.size == 0, "group: a non-empty group is never burnt");
        ensures!(closed(&asset), "group: the account is closed");
    }
    reach!(ok, "an empty group is burnt");
    reach!(!ok && pre.data.e.d.size > 0, "a non-empty group is refused");
});

/// Burning a member takes it out of its group.
proof!(member, 6, {
    let mut asset = Acc::<L0>::any();
    let mut signer = Wallet::any();
    let mut recipient = absent();
    let mut group = Acc::<T1<GroupingData>>::any();
    kani::assume(valid_hdr(&asset.data.a) && valid_hdr(&group.data.a));
    group.data.e.h = [T_GROUPING, 48, 232, 0];
    kani::assume(!eq(&group.key, &PROGRAM));
    let pre = asset;
    let g = group;
    let s = signer;
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::BURN],
    );
    let a = pre.data.a;
    let grouped = !eq(&a.group, &ZERO);
    let (n, m) = (g.data.e.d.size, group.data.e.d.size);
    if ok {
        ensures!(allowed(&pre, &a, &s, false), "member: only the owner or the burn delegate of an unlocked asset, by signature");
        ensures!(closed(&asset), "member: the account is closed");
        if grouped {
            ensures!(eq(&a.group, &g.key), "member: the group account is the asset's group");
            ensures!(n > 0 && m == n - 1, "member: the group size drops by exactly one");
        } else {
            ensures!(refused() || m == n, "member: an unrelated group keeps its size");
        }
    }
    ensures_same!(group, g, 0, 184, "member: the rest of the group is kept");
    ensures_same!(group, g, 192, 232, "member: limit and delegate of the group are kept");
    ensures!(refused() || group.lamports == g.lamports && group.data_len == g.data_len, "member: the group account is kept");
    reach!(ok && grouped, "a member is burnt");
});

/// A group that is itself a member of another group.
proof!(member_group, 6, {
    let mut asset = Acc::<T1<GroupingData>>::any();
    let mut signer = Wallet::any();
    let mut recipient = absent();
    let mut group = Acc::<T1<GroupingData>>::any();
    kani::assume(valid_hdr(&asset.data.a) && valid_hdr(&group.data.a));
    asset.data.e.h = [T_GROUPING, 48, 232, 0];
    group.data.e.h = [T_GROUPING, 48, 232, 0];
    group.key = GROUP_KEY;
    asset.data.a.group = GROUP_KEY;
    let pre = asset;
    let g = group;
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::BURN],
    );
    let (n, m) = (g.data.e.d.size, group.data.e.d.size);
    if ok {
        ensures!(pre.data.e.d.size == 0, "nested: a non-empty group is never burnt");
        ensures!(n > 0 && m == n - 1, "nested: the outer group size drops by exactly one");
        ensures!(closed(&asset), "nested: the account is closed");
    }
    reach!(ok, "a nested empty group is burnt");
});
