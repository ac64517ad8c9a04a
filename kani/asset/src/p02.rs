//! P02: royalties are enforced on every change of ownership.
use crate::env::*;

const MATCH_HDR: [u32; 2] = [OP_PUBKEY_MATCH, 40];

fn royalties_ext<D>(e: &mut ExtT<D>, at: u32, size: u32) {
    e.h = [T_ROYALTIES, size, at + 16 + size, 0];
}

/// Direct wallet-to-wallet transfers are exempt.
fn exempt(height: usize, signer: &Wallet, recipient: &Wallet) -> bool {
    height <= 1 && eq(&signer.owner, &SYSTEM) && eq(&recipient.owner, &SYSTEM)
}

fn passes(r: &RoyaltiesData, asset: &Key, signer: &Key, recipient: &Key) -> bool {
    let who = if r.account == 0 {
        asset
    } else if r.account == 1 {
        signer
    } else {
        recipient
    };
    eq(&r.key, who)
}

proof_royalties!(own_royalties, 6, {
    let mut asset = Acc::<T1<RoyaltiesData>>::any();
    let mut signer = Wallet::any();
    let mut recipient = Wallet::any();
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    royalties_ext(&mut asset.data.e, 168, 56);
    asset.data.e.d.op = MATCH_HDR;
    kani::assume(asset.data.e.d.account <= 2);
    let h: usize = kani::any();
    stack_height(h);
    let pre = asset;
    let (s, r) = (signer, recipient);
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::TRANSFER],
    );
    let allowed = exempt(h, &s, &r) || passes(&pre.data.e.d, &pre.key, &s.key, &r.key);
    if ok {
        ensures!(allowed, "own royalties: transfer is exempt or the constraint passes");
        ensures_same!(asset, pre, 133, 240, "royalties are kept by the transfer");
    }
    let a = pre.data.a;
    if allowed
        && is_asset(&pre, &a)
        && a.state == UNLOCKED
        && a.standard == NON_FUNGIBLE
        && s.signed()
        && eq(&a.owner, &s.key)
        && !eq(&s.owner, &PROGRAM)
        && !eq(&r.owner, &PROGRAM)
    {
        ensures!(ok, "own royalties: an owner whose transfer passes is not refused");
    }
    reach!(ok && !exempt(h, &s, &r), "constrained transfer");
    reach!(ok && exempt(h, &s, &r) && !passes(&pre.data.e.d, &pre.key, &s.key, &r.key), "exempt transfer");
});

proof_royalties!(group_royalties, 6, {
    let mut asset = Acc::<L0>::any();
    let mut signer = Wallet::any();
    let mut recipient = Wallet::any();
    let mut group = Acc::<T1<RoyaltiesData>>::any();
    kani::assume(valid_hdr(&asset.data.a) && valid_hdr(&group.data.a));
    royalties_ext(&mut group.data.e, 168, 56);
    group.data.e.d.op = MATCH_HDR;
    kani::assume(group.data.e.d.account <= 2);
    group.key = GROUP_KEY;
    let h: usize = kani::any();
    stack_height(h);
    let pre = asset;
    let g = group;
    let (s, r) = (signer, recipient);
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::TRANSFER],
    );
    let moved = ok && !eq(&pre.data.a.owner, &r.key);
    let grouped = !eq(&pre.data.a.group, &ZERO);
    let allowed = exempt(h, &s, &r) || passes(&g.data.e.d, &pre.key, &s.key, &r.key);
    if moved && grouped {
        ensures!(eq(&pre.data.a.group, &g.key), "the group account is the asset's group");
        ensures!(is_asset(&g, &g.data.a), "the group account is an asset of the program");
        ensures!(allowed, "group royalties: transfer is exempt or the constraint passes");
    }
    ensures_same!(group, g, 0, 240, "the group is not changed by a transfer");
    let a = pre.data.a;
    if allowed
        && grouped
        && eq(&a.group, &g.key)
        && is_asset(&g, &g.data.a)
        && g.data.a.state == UNLOCKED
        && is_asset(&pre, &a)
        && a.state == UNLOCKED
        && a.standard == NON_FUNGIBLE
        && s.signed()
        && eq(&a.owner, &s.key)
        && !eq(&s.owner, &PROGRAM)
        && !eq(&r.owner, &PROGRAM)
    {
        ensures!(ok, "group royalties: an owner whose transfer passes is not refused");
    }
    reach!(moved && grouped && !exempt(h, &s, &r), "constrained transfer in a group");
});

proof!(group_without_royalties, 6, {
    let mut asset = Acc::<L0>::any();
    let mut signer = Wallet::any();
    let mut recipient = Wallet::any();
    let mut group = Acc::<T1<GroupingData>>::any();
    kani::assume(valid_hdr(&asset.data.a) && valid_hdr(&group.data.a));
    group.data.e.h = [T_GROUPING, 48, 232, 0];
    let pre = asset;
    let g = group;
    let r = recipient;
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::TRANSFER],
    );
    if ok && !eq(&pre.data.a.owner, &r.key) && !eq(&pre.data.a.group, &ZERO) {
        ensures!(eq(&pre.data.a.group, &g.key), "the group account is the asset's group");
        ensures!(is_asset(&g, &g.data.a), "the group account is an asset of the program");
    }
    reach!(ok && !eq(&pre.data.a.group, &ZERO), "transfer in a group");
});

proof!(group_account_missing, 6, {
    let mut asset = Acc::<L0>::any();
    let mut signer = Wallet::any();
    let mut recipient = Wallet::any();
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    stack_height(kani::any());
    let pre = asset;
    let r = recipient;
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::TRANSFER],
    );
    if ok && !eq(&pre.data.a.owner, &r.key) {
        ensures!(eq(&pre.data.a.group, &ZERO), "a grouped asset needs its group account");
    }
    reach!(ok, "ungrouped transfer");
});
