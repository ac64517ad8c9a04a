//! P01: who may transfer an asset, and what a transfer changes.
use crate::env::*;

fn post<D: Copy>(
    ok: bool,
    pre: &Acc<D>,
    pa: &Hdr,
    post: &Acc<D>,
    a: &Hdr,
    signer: &Wallet,
    recipient: &Key,
    by_manager: bool,
    len: usize,
) {
    if ok {
        ensures!(eq(&pre.owner, &PROGRAM), "transferred account belongs to the program");
        ensures!(pa.discriminator == 1, "transferred account is an initialized asset");
        ensures!(signer.signed(), "the acting account signed the transfer");
        ensures!(
            eq(&pa.owner, &signer.key) || is_delegate(pa, &signer.key, ROLE_TRANSFER) || by_manager,
            "the signer is the owner, the transfer delegate or the transfer manager"
        );
        ensures!(pa.standard != SOULBOUND, "a soulbound asset is never transferred");
        ensures!(eq(&a.owner, recipient), "the recipient owns the asset afterwards");
        if eq(&pa.owner, recipient) {
            ensures_same!(post, pre, 0, len, "a self-transfer changes nothing");
        } else {
            ensures!(eq(&a.delegate, &ZERO) && a.roles == 0, "the delegate is cleared");
            ensures_same!(post, pre, 0, 4, "state, standard and mutability are kept");
            ensures_same!(post, pre, 36, 100, "group and authority are kept");
            ensures_same!(post, pre, 133, len, "name and extensions are kept");
        }
    }
    ensures!(
        refused() || post.lamports == pre.lamports && post.data_len == pre.data_len && eq(&post.owner, &pre.owner),
        "lamports, size and program owner of the account are kept"
    );
}

proof!(no_extension, 6, {
    let mut asset = Acc::<L0>::any();
    let mut signer = Wallet::any();
    let mut recipient = Wallet::any();
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    stack_height(kani::any());
    let pre = asset;
    let (s, r) = (signer, recipient);
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::TRANSFER],
    );
    post(ok, &pre, &pre.data.a, &asset, &asset.data.a, &s, &r.key, false, HDR);
    ensures_wallet_untouched!(signer, s, "signer account untouched");
    ensures_wallet_untouched!(recipient, r, "recipient account untouched");
    reach!(ok && !eq(&pre.data.a.owner, &s.key), "a delegate transfers");
    reach!(ok && eq(&pre.data.a.owner, &s.key) && !eq(&r.key, &s.key), "the owner transfers");
    reach!(!ok, "a transfer is rejected");
});

fn two_extensions(t1: u32, t2: u32) {
    let mut asset = Acc::<L2<40, 40>>::any();
    let mut signer = Wallet::any();
    let mut recipient = Wallet::any();
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [t1, 33, 224, 0];
    asset.data.f.h = [t2, 33, 280, 0];
    stack_height(kani::any());
    let pre = asset;
    let (s, r) = (signer, recipient);
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::TRANSFER],
    );
    let by_manager = if t1 == T_MANAGER {
        is_manager(&pre.data.e.d, &s.key, ROLE_TRANSFER)
    } else if t1 != T_NONE && t2 == T_MANAGER {
        is_manager(&pre.data.f.d, &s.key, ROLE_TRANSFER)
    } else {
        false
    };
    post(ok, &pre, &pre.data.a, &asset, &asset.data.a, &s, &r.key, by_manager, 280);
    reach!(ok, "a transfer succeeds");
    if t1 != T_NONE {
        reach!(ok && by_manager && !eq(&pre.data.a.owner, &s.key), "the manager transfers");
    }
}
proof!(any_two_extensions, 6, {
    let (t1, t2): (u32, u32) = (kani::any(), kani::any());
    kani::assume(t1 != T_ROYALTIES && t2 != T_ROYALTIES);
    two_extensions(t1, t2)
});

proof!(signer_is_recipient, 6, {
    let mut asset = Acc::<L1<40>>::any();
    let mut signer = Wallet::any();
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    stack_height(kani::any());
    let pre = asset;
    let s = signer;
    let i = info(&mut signer);
    let ok = invoke(&[info(&mut asset), i.clone(), i, info(&mut group)], &[tag::TRANSFER]);
    let by_manager = is_manager(&pre.data.e.d, &s.key, ROLE_TRANSFER);
    post(ok, &pre, &pre.data.a, &asset, &asset.data.a, &s, &s.key, by_manager, 224);
    reach!(ok && !eq(&pre.data.a.owner, &s.key), "a delegate takes the asset");
});

// The right holder is never refused (and the program never aborts on him).
proof!(holder_total, 6, {
    let mut asset = Acc::<L1<40>>::any();
    let mut signer = Wallet::any();
    let mut recipient = Wallet::any();
    let mut group = absent();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    let a = asset.data.a;
    kani::assume(is_asset(&asset, &a) && a.state == UNLOCKED && a.standard != SOULBOUND);
    kani::assume(a.standard != PROXIED || asset.signed());
    kani::assume(eq(&a.group, &ZERO));
    kani::assume(signer.signed() && !eq(&signer.owner, &PROGRAM) && !eq(&recipient.owner, &PROGRAM));
    kani::assume(
        eq(&a.owner, &signer.key)
            || is_delegate(&a, &signer.key, ROLE_TRANSFER)
            || is_manager(&asset.data.e.d, &signer.key, ROLE_TRANSFER),
    );
    stack_height(kani::any());
    let ok = invoke(
        &[info(&mut asset), info(&mut signer), info(&mut recipient), info(&mut group)],
        &[tag::TRANSFER],
    );
    ensures!(ok, "owner, transfer delegate and transfer manager can transfer");
    reach!(ok, "a holder transfers");
});
