//! P12: managed assets have a manager, proxied assets a proxy record for their
//! own address, other assets neither; later instructions keep it so.
use crate::env::*;
use nifty_asset_types::extensions::ExtensionType;

fn create<D>(asset: &mut Acc<D>, standard: u8) -> bool {
    let mut authority = Wallet::any();
    let mut owner = Wallet::any();
    let (mut group, mut ga, mut payer, mut system) = (absent(), absent(), absent(), absent());
    invoke(
        &[info(asset), info(&mut authority), info(&mut owner), info(&mut group), info(&mut ga), info(&mut payer), info(&mut system)],
        &[tag::CREATE, 1, 0, 0, 0, b'n', standard, 1, 0],
    )
}
fn with_manager(standard: u8) {
    let mut asset = Acc::<T1<ManagerData>>::any();
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    let pre = asset;
    let ok = create(&mut asset, standard);
    ensures!(!ok || standard == MANAGED, "create: only a managed asset has a manager");
    ensures!(!ok || asset.data.a.standard == standard, "create: the standard is the requested one");
    ensures_same!(asset, pre, 168, 224, "create: the manager data is kept");
    reach!(if standard == MANAGED { ok } else { !ok && pre.signed() }, "decided");
}
proof!(manager_managed, 9, { with_manager(MANAGED) });
proof!(manager_non_fungible, 9, { with_manager(NON_FUNGIBLE) });
proof!(manager_soulbound, 9, { with_manager(SOULBOUND) });

fn with_nothing(standard: u8) {
    let mut asset = Acc::<L0>::any();
    let pre = asset;
    let ok = create(&mut asset, standard);
    ensures!(!ok || (standard != MANAGED && standard != PROXIED), "create: managed and proxied assets need their extension");
    reach!(ok || (standard == MANAGED && pre.signed()) || standard == PROXIED, "decided");
}
proof!(nothing_managed, 9, { with_nothing(MANAGED) });
proof!(nothing_proxied, 9, { with_nothing(PROXIED) });
proof!(nothing_soulbound, 9, { with_nothing(SOULBOUND) });

fn with_proxy(standard: u8) {
    let mut asset = Acc::<T1<ProxyData>>::any();
    asset.data.e.h = [T_PROXY, 97, 288, 0];
    let pre = asset;
    let ok = create(&mut asset, standard);
    let p = pre.data.e.d;
    if ok {
        ensures!(standard == PROXIED, "create: only a proxied asset has a proxy record");
        unsafe {
            let d = &*core::ptr::addr_of!(DERIVATION);
            ensures!(
                d.calls > 0 && eq(&d.program, &p.program) && eq(&d.seeds, &p.seeds) && d.bump == p.bump && eq(&d.address, &pre.key),
                "create: a proxied asset's address is derived from its proxy record"
            );
        }
    }
    reach!(if standard == PROXIED { ok } else { !ok && pre.signed() }, "decided");
}
proof!(proxy_proxied, 9, { with_proxy(PROXIED) });
proof!(proxy_non_fungible, 9, { with_proxy(NON_FUNGIBLE) });

struct Update {
    authority: Wallet,
    payer: Wallet,
    system: Wallet,
}
fn update<D, B>(asset: &mut Acc<D>, buffer: &mut Acc<B>, u: &mut Update, data: &[u8]) -> bool {
    let mut group = absent();
    invoke(
        &[info(asset), info(&mut u.authority), info(buffer), info(&mut group), info(&mut u.payer), info(&mut u.system)],
        data,
    )
}
fn actors() -> Update {
    let mut u = Update { authority: Wallet::any(), payer: Wallet::any(), system: Wallet::any() };
    u.payer.key = GROUP_KEY;
    u.system.key = SYSTEM;
    u
}
fn room() -> Acc<Room<L0, 120>> {
    let mut asset = Acc::<Room<L0, 120>>::any();
    kani::assume(valid_hdr(&asset.data.d.a));
    asset.data_len = 168;
    asset.data.room = [0; 120];
    asset
}
/// A manager or proxy record is not added later.
proof!(add_manager, 8, {
    let mut asset = room();
    let d: [u8; 33] = kani::any();
    let data = Args { head: [tag::UPDATE, 0, 0, 1, 8, 33, 0, 0, 0, 1, 33, 0, 0, 0], d };
    let ok = update(&mut asset, &mut absent(), &mut actors(), data.as_bytes());
    ensures!(!ok, "update: a manager is not added to an existing asset");
    reach!(!ok && asset.data.d.a.standard == NON_FUNGIBLE, "refused");
});
proof!(add_manager_empty, 8, {
    let mut asset = room();
    let ok = update(&mut asset, &mut absent(), &mut actors(), &[tag::UPDATE, 0, 0, 1, 8, 0, 0, 0, 0, 0]);
    ensures!(!ok, "update: an empty manager is not added to an existing asset");
    reach!(!ok && asset.data.d.a.standard == NON_FUNGIBLE, "refused");
});
proof!(add_proxy_empty, 8, {
    let mut asset = room();
    let ok = update(&mut asset, &mut absent(), &mut actors(), &[tag::UPDATE, 0, 0, 1, 9, 0, 0, 0, 0, 0]);
    ensures!(!ok, "update: an empty proxy record is not added to an existing asset");
    reach!(!ok && asset.data.d.a.standard == NON_FUNGIBLE, "refused");
});
proof!(add_manager_buffer, 8, {
    let mut asset = room();
    let mut buffer = Acc::<T1<ManagerData>>::any();
    buffer.key = GROUP_KEY;
    buffer.data.e.h = [T_MANAGER, 33, 224, 0];
    let ok = update(&mut asset, &mut buffer, &mut actors(), &[tag::UPDATE, 0, 0, 0]);
    ensures!(!ok, "update: a manager is not added from a buffer");
    reach!(!ok && asset.data.d.a.standard == NON_FUNGIBLE, "refused");
});
proof!(add_proxy_buffer, 8, {
    let mut asset = room();
    let mut buffer = Acc::<T1<ProxyData>>::any();
    buffer.key = GROUP_KEY;
    buffer.data.e.h = [T_PROXY, 97, 288, 0];
    let ok = update(&mut asset, &mut buffer, &mut actors(), &[tag::UPDATE, 0, 0, 0]);
    ensures!(!ok, "update: a proxy record is not added from a buffer");
    reach!(!ok && asset.data.d.a.standard == NON_FUNGIBLE, "refused");
});

/// Nor is it removed or emptied.
fn remove<D>(asset: &mut Acc<D>, kind: ExtensionType) -> bool {
    let mut authority = Wallet::any();
    let mut group = absent();
    let mut recipient = Wallet::any();
    invoke_remove(&[info(asset), info(&mut authority), info(&mut group), info(&mut recipient)], kind)
}
proof_direct!(remove_manager, 6, {
    let mut asset = Acc::<T1<ManagerData>>::any();
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    let ok = remove(&mut asset, ExtensionType::Manager);
    ensures!(!ok, "remove: the manager stays");
    reach!(!ok && asset.data.a.standard == MANAGED && asset.data.a.mutable == 1, "refused");
});
proof_direct!(remove_proxy, 6, {
    let mut asset = Acc::<T1<ProxyData>>::any();
    asset.data.e.h = [T_PROXY, 97, 288, 0];
    let ok = remove(&mut asset, ExtensionType::Proxy);
    ensures!(!ok, "remove: the proxy record stays");
    reach!(!ok && asset.data.a.standard == PROXIED && asset.data.a.mutable == 1, "refused");
});
proof!(manager_emptied, 8, {
    let mut asset = Acc::<T1<ManagerData>>::any();
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    reach!(asset.data.a.standard == MANAGED, "a managed asset");
    let ok = update(&mut asset, &mut absent(), &mut actors(), &[tag::UPDATE, 0, 0, 1, 8, 0, 0, 0, 0, 0]);
    ensures!(!ok, "update: the manager is not emptied");
});
proof!(manager_updated, 8, {
    let mut asset = Acc::<T1<ManagerData>>::any();
    kani::assume(valid_hdr(&asset.data.a));
    asset.data.e.h = [T_MANAGER, 33, 224, 0];
    let d: [u8; 33] = kani::any();
    let data = Args { head: [tag::UPDATE, 0, 0, 1, 8, 33, 0, 0, 0, 1, 33, 0, 0, 0], d };
    let pre = asset;
    let mut u = actors();
    let w = u.authority;
    let ok = update(&mut asset, &mut absent(), &mut u, data.as_bytes());
    if ok {
        ensures!(w.signed() && eq(&w.key, &pre.data.a.authority) && pre.data.a.mutable == 1, "update: the authority replaces the manager");
        let i: usize = kani::any();
        kani::assume(i < 33);
        ensures!(asset.byte(184 + i) == d[i], "update: the manager is the given one");
        ensures!(asset.data.e.h[0] == T_MANAGER && asset.data.e.h[1] == 33 && asset.data.e.h[2] == 224, "update: the manager stays a manager");
    }
    ensures_same!(asset, pre, 0, 168, "update: the header is kept");
    reach!(ok, "manager updated");
});
