//! P04: who locks and unlocks, and what that changes.
use crate::env::*;

fn run(t: u8, t1: u32, t2: u32, target: u8) {
    let mut asset = Acc::<T2<ManagerData, ManagerData>>::any();
    let mut signer = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [t1, 33, 224, 0];
    asset.data.f.h = [t2, 33, 280, 0];
    let pre = asset;
    let s = signer;
    let ok = invoke(&[info(&mut asset), info(&mut signer)], &[t]);
    let a = pre.data.a;
    let by_manager = if t1 == T_MANAGER {
        eq(&pre.data.e.d.delegate, &s.key) && pre.data.e.d.roles & ROLE_LOCK != 0
    } else if t1 != T_NONE && t2 == T_MANAGER {
        eq(&pre.data.f.d.delegate, &s.key) && pre.data.f.d.roles & ROLE_LOCK != 0
    } else {
        false
    };
    let delegated = !eq(&a.delegate, &ZERO);
    let allowed = if delegated {
        is_delegate(&a, &s.key, ROLE_LOCK) || by_manager
    } else {
        eq(&a.owner, &s.key) || by_manager
    };
    if ok {
        ensures!(eq(&pre.owner, &PROGRAM) && a.discriminator == 1, "only an asset of the program");
        ensures!(s.signed(), "the acting account signed");
        ensures!(allowed, "the signer is the lock delegate, the lock manager, or the owner when there is no delegate");
        ensures!(asset.data.a.state == target, "the state is the requested one");
        ensures_same!(asset, pre, 2, 280, "only the state changes");
        ensures!(asset.data.a.discriminator == 1, "the asset stays initialized");
    }
    ensures!(
        refused() || asset.data_len == pre.data_len && asset.lamports == pre.lamports && eq(&asset.owner, &pre.owner),
        "size, lamports and program owner are kept"
    );
    ensures_wallet_untouched!(signer, s, "the signer account is untouched");
    if is_asset(&pre, &a)
        && s.signed()
        && allowed
        && (a.standard != PROXIED || pre.signed())
        && (target == UNLOCKED || a.state == UNLOCKED)
        && !eq(&s.owner, &PROGRAM)
    {
        ensures!(ok, "an authorized lock or unlock is not refused");
    }
    reach!(ok && by_manager && !eq(&a.owner, &s.key), "the manager acts");
    reach!(ok && delegated, "the delegate acts");
    reach!(ok && !delegated && !by_manager, "the owner acts");
}

proof!(lock_any_two_extensions, 6, { run(tag::LOCK, kani::any(), kani::any(), LOCKED) });
proof!(unlock_any_two_extensions, 6, { run(tag::UNLOCK, kani::any(), kani::any(), UNLOCKED) });

fn plain(t: u8, target: u8) {
    let mut asset = Acc::<L0>::any();
    let mut signer = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a));
    let pre = asset;
    let s = signer;
    let ok = invoke(&[info(&mut asset), info(&mut signer)], &[t]);
    let a = pre.data.a;
    let delegated = !eq(&a.delegate, &ZERO);
    let allowed = if delegated { is_delegate(&a, &s.key, ROLE_LOCK) } else { eq(&a.owner, &s.key) };
    if ok {
        ensures!(is_asset(&pre, &a) && s.signed() && allowed, "no extension: only the lock delegate, or the owner without delegate");
        ensures!(asset.data.a.state == target, "no extension: the state is the requested one");
        ensures_same!(asset, pre, 2, 168, "no extension: only the state changes");
    }
    reach!(ok, "succeeds");
}
proof!(lock_no_extension, 6, { plain(tag::LOCK, LOCKED) });
proof!(unlock_no_extension, 6, { plain(tag::UNLOCK, UNLOCKED) });
