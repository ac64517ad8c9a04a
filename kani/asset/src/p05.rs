//! P05: only the owner grants delegate roles; grants and revocations are exact.
use crate::env::*;

fn mask(role: u8) -> u8 {
    match role {
        1 => ROLE_TRANSFER,
        2 => ROLE_LOCK,
        3 => ROLE_BURN,
        _ => 0,
    }
}

fn approve<const N: usize>(data: [u8; N], roles: u8) {
    let mut asset = Acc::<L0>::any();
    let mut owner = Wallet::any();
    let mut delegate = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a));
    let pre = asset;
    let (o, d) = (owner, delegate);
    let ok = invoke(&[info(&mut asset), info(&mut owner), info(&mut delegate)], &data);
    let a = pre.data.a;
    if ok {
        ensures!(is_asset(&pre, &a), "approve: only an asset of the program");
        ensures!(o.signed() && eq(&a.owner, &o.key), "approve: only the owner, by signature");
        ensures!(eq(&asset.data.a.delegate, &d.key), "approve: the named account is the delegate");
        let kept = if !eq(&a.delegate, &ZERO) && eq(&a.delegate, &d.key) { a.roles } else { 0 };
        ensures!(asset.data.a.roles == kept | roles, "approve: exactly the named roles, added to what the same delegate held");
        ensures_same!(asset, pre, 0, 100, "approve: everything before the delegate is kept");
        ensures_same!(asset, pre, 133, 168, "approve: the name is kept");
    }
    ensures!(refused() || asset.lamports == pre.lamports && asset.data_len == pre.data_len && eq(&asset.owner, &pre.owner), "approve: account kept");
    if is_asset(&pre, &a)
        && a.state == UNLOCKED
        && a.standard != PROXIED
        && o.signed()
        && eq(&a.owner, &o.key)
        && !eq(&o.owner, &PROGRAM)
        && !eq(&d.owner, &PROGRAM)
    {
        ensures!(ok, "approve: the owner of an unlocked asset is not refused");
    }
    reach!(ok, "approve succeeds");
}
proof!(approve_all, 6, { approve([tag::APPROVE, 0], 0b111) });
proof!(approve_transfer, 6, { approve([tag::APPROVE, 1, 1, 0, 0, 0, 1], mask(1)) });
proof!(approve_lock_burn, 6, { approve([tag::APPROVE, 1, 2, 0, 0, 0, 2, 3], mask(2) | mask(3)) });
proof!(approve_none, 6, { approve([tag::APPROVE, 1, 1, 0, 0, 0, 0], mask(0)) });

fn revoke<const N: usize>(data: [u8; N], roles: Option<u8>) {
    let mut asset = Acc::<L0>::any();
    let mut signer = Wallet::any();
    kani::assume(valid_hdr(&asset.data.a));
    kani::assume(asset.data.a.roles <= 0b111);
    let pre = asset;
    let s = signer;
    let ok = invoke(&[info(&mut asset), info(&mut signer)], &data);
    let a = pre.data.a;
    let delegated = !eq(&a.delegate, &ZERO);
    let by_delegate = delegated && eq(&a.delegate, &s.key);
    if ok {
        ensures!(is_asset(&pre, &a), "revoke: only an asset of the program");
        ensures!(s.signed() && (eq(&a.owner, &s.key) || by_delegate), "revoke: only the owner or the delegate itself, by signature");
        let b = asset.data.a;
        match roles {
            None => ensures!(eq(&b.delegate, &ZERO) && b.roles == 0, "revoke: everything is revoked"),
            Some(m) => {
                if delegated {
                    let left = a.roles & !m;
                    ensures!(b.roles == left, "revoke: exactly the named roles are gone");
                    if left == 0 {
                        ensures!(eq(&b.delegate, &ZERO), "revoke: a delegate without roles is removed");
                    } else {
                        ensures!(eq(&b.delegate, &a.delegate), "revoke: the delegate keeps its other roles");
                    }
                } else {
                    ensures!(eq(&b.delegate, &ZERO), "revoke: no delegate appears");
                }
            }
        }
        ensures_same!(asset, pre, 0, 100, "revoke: everything before the delegate is kept");
        ensures_same!(asset, pre, 133, 168, "revoke: the name is kept");
    }
    ensures!(refused() || asset.lamports == pre.lamports && asset.data_len == pre.data_len && eq(&asset.owner, &pre.owner), "revoke: account kept");
    if is_asset(&pre, &a)
        && a.state == UNLOCKED
        && a.standard != PROXIED
        && s.signed()
        && eq(&a.owner, &s.key)
        && !eq(&s.owner, &PROGRAM)
    {
        ensures!(ok, "revoke: the owner of an unlocked asset is not refused");
    }
    reach!(ok && by_delegate, "the delegate revokes itself");
    reach!(ok && !by_delegate, "the owner revokes");
}
proof!(revoke_all, 6, { revoke([tag::REVOKE, 0], None) });
proof!(revoke_transfer, 6, { revoke([tag::REVOKE, 1, 1, 0, 0, 0, 1], Some(mask(1))) });
proof!(revoke_lock_burn, 6, { revoke([tag::REVOKE, 1, 2, 0, 0, 0, 2, 3], Some(mask(2) | mask(3))) });
proof!(revoke_each, 6, { revoke([tag::REVOKE, 1, 3, 0, 0, 0, 3, 1, 2], Some(0b111)) });
