//! P21: role bits, enum codes and the account header mean what the format says.
use crate::env::*;
use nifty_asset_types::{
    constraints::OperatorType,
    extensions::{Extension, ExtensionType},
    podded::{
        pod::{Nullable, PodOption},
        ZeroCopy,
    },
    state::{Asset, Delegate, DelegateRole, Discriminator, NullablePubkey, Standard, State},
};
use solana_program::pubkey::Pubkey;

fn role() -> (DelegateRole, u8) {
    let r: u8 = kani::any();
    kani::assume(r <= 3);
    let mask = match r {
        0 => 0,
        1 => 0b001,
        2 => 0b010,
        _ => 0b100,
    };
    (DelegateRole::from(r), mask)
}

proof!(role_bits, 5, {
    let key: Key = kani::any();
    let roles: u8 = kani::any();
    let (r, mask) = role();
    let d = Delegate { address: NullablePubkey::new(Pubkey::new_from_array(key)), roles };
    ensures!(r.mask() == mask, "each role has its own bit");
    ensures!(d.is_active(r) == (roles & mask != 0), "a role is active exactly when its bit is set");
    ensures!(d.has_active_roles() == (roles != 0), "some role is active exactly when a bit is set");
    let (mut e, mut f) = (d, d);
    e.enable(r);
    ensures!(e.roles == roles | mask && eq(e.address.as_ref(), &key), "enabling sets that bit only");
    f.disable(r);
    ensures!(f.roles == roles & !mask && eq(f.address.as_ref(), &key), "disabling clears that bit only");
    ensures!(d.is_some() != eq(&key, &ZERO) && d.is_none() == eq(&key, &ZERO), "the zero address means no delegate");
    let o = PodOption::new(d);
    ensures!(o.value().is_some() != eq(&key, &ZERO), "an optional delegate is present unless zero");
    ensures!(Delegate::ALL_ROLES_MASK == 7, "all roles");
    reach!(d.is_active(r), "active");
});

proof!(decode_roles, 5, {
    let roles: u8 = kani::any();
    kani::assume(roles <= 7);
    let v = Delegate::decode_roles(roles);
    if roles == 0 {
        ensures!(v.len() == 1 && v[0] == DelegateRole::None, "no bits decode to no role");
    } else {
        let n = (roles & 1) + (roles >> 1 & 1) + (roles >> 2 & 1);
        ensures!(v.len() == n as usize, "one role per bit");
        let mut j = 0;
        if roles & 1 != 0 {
            ensures!(v[j] == DelegateRole::Transfer, "transfer bit");
            j += 1;
        }
        if roles & 2 != 0 {
            ensures!(v[j] == DelegateRole::Lock, "lock bit");
            j += 1;
        }
        if roles & 4 != 0 {
            ensures!(v[j] == DelegateRole::Burn, "burn bit");
        }
    }
});

proof!(codes, 5, {
    let b: u8 = kani::any();
    let k: u32 = kani::any();
    if b <= 1 {
        ensures!(u8::from(Discriminator::from(b)) == b, "discriminator code round trip");
        ensures!(u8::from(State::from(b)) == b, "state code round trip");
    }
    if b <= 3 {
        ensures!(u8::from(Standard::from(b)) == b, "standard code round trip");
        ensures!(u8::from(DelegateRole::from(b)) == b, "role code round trip");
        ensures!(Standard::from(b) as u8 == b && DelegateRole::from(b) as u8 == b, "stored and encoded code agree");
    }
    match ExtensionType::try_from(k) {
        Ok(t) => {
            ensures!(k <= 11 && u32::from(t) == k, "extension code round trip");
            ensures!(t as u32 == k, "instruction and account extension codes agree");
        }
        Err(_) => ensures!(k > 11, "every extension code up to 11 is known"),
    }
    if k <= 5 {
        ensures!(u32::from(OperatorType::from(k)) == k && OperatorType::from(k) as u32 == k, "operator code round trip");
    }
    ensures!(Discriminator::Uninitialized as u8 == 0 && Discriminator::Asset as u8 == 1, "discriminator values");
    ensures!(State::Unlocked as u8 == 0 && State::Locked as u8 == 1, "state values");
    ensures!(
        Standard::NonFungible as u8 == 0 && Standard::Managed as u8 == 1 && Standard::Soulbound as u8 == 2 && Standard::Proxied as u8 == 3,
        "standard values"
    );
    ensures!(
        DelegateRole::None as u8 == 0 && DelegateRole::Transfer as u8 == 1 && DelegateRole::Lock as u8 == 2 && DelegateRole::Burn as u8 == 3,
        "role values"
    );
    ensures!(
        OperatorType::And as u32 == 0 && OperatorType::Not as u32 == 1 && OperatorType::Or as u32 == 2
            && OperatorType::OwnedBy as u32 == 3 && OperatorType::PubkeyMatch as u32 == 4 && OperatorType::Empty as u32 == 5,
        "operator values"
    );
    ensures!(
        ExtensionType::None as u32 == 0 && ExtensionType::Attributes as u32 == 1 && ExtensionType::Blob as u32 == 2
            && ExtensionType::Creators as u32 == 3 && ExtensionType::Links as u32 == 4 && ExtensionType::Metadata as u32 == 5
            && ExtensionType::Grouping as u32 == 6 && ExtensionType::Royalties as u32 == 7 && ExtensionType::Manager as u32 == 8
            && ExtensionType::Proxy as u32 == 9 && ExtensionType::Properties as u32 == 10 && ExtensionType::Bucket as u32 == 11,
        "extension values"
    );
});

#[repr(C, align(8))]
struct Mem<const N: usize>([u8; N]);

proof!(header, 5, {
    let mut m = Mem::<168>(kani::any());
    kani::assume(m.0[0] <= 1 && m.0[1] <= 1 && m.0[2] <= 3 && m.0[3] <= 1);
    let pre = m.0;
    ensures!(Asset::LEN == 168, "the header is 168 bytes");
    let a = Asset::load(&m.0);
    ensures!(u8::from(a.discriminator) == pre[0] && u8::from(a.state) == pre[1] && u8::from(a.standard) == pre[2], "kind, state and standard");
    ensures!(bool::from(a.mutable) == (pre[3] == 1), "mutable flag");
    ensures!(eq(a.owner.as_ref(), &pre[4..36]), "owner");
    ensures!(eq(a.authority.as_ref(), &pre[68..100]), "authority");
    match a.group.value() {
        Some(g) => ensures!(eq(g.as_ref(), &pre[36..68]), "group"),
        None => ensures!(eq(&pre[36..68], &ZERO), "no group"),
    }
    match a.delegate.value() {
        Some(d) => ensures!(eq(d.address.as_ref(), &pre[100..132]) && d.roles == pre[132], "delegate"),
        None => ensures!(eq(&pre[100..132], &ZERO), "no delegate"),
    }
    // writing through the mutable view
    let g: Key = kani::any();
    kani::assume(!eq(&g, &ZERO));
    let w = Asset::load_mut(&mut m.0);
    w.owner = Pubkey::new_from_array(g);
    w.state = State::Locked;
    w.delegate = Delegate::default().into();
    ensures!(eq(&m.0[4..36], &g) && m.0[1] == 1 && eq(&m.0[100..132], &ZERO), "writing a field writes its bytes");
    let i: usize = kani::any();
    kani::assume(i < 168 && i != 1 && !(4 <= i && i < 36) && !(100 <= i && i <= 132));
    ensures!(m.0[i] == pre[i], "writing a field keeps the others");
});

proof!(extension_header, 5, {
    let (k, n, b): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    kani::assume(k <= 11);
    let t = ExtensionType::try_from(k).unwrap();
    let mut e = Extension::new(t, n, b);
    ensures!(Extension::LEN == 16, "an extension header is 16 bytes");
    ensures!(u32::from(e.extension_type()) == k && e.length() == n && e.boundary() == b, "a new header carries what it was given");
    let raw = bytemuck::bytes_of(&e);
    let w = |i: usize| u32::from_le_bytes([raw[i], raw[i + 1], raw[i + 2], raw[i + 3]]);
    ensures!(w(0) == k && w(4) == n && w(8) == b && w(12) == 0, "header layout: kind, length, boundary");
    let (k2, n2, b2): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
    kani::assume(k2 <= 11);
    e.set_extension_type(ExtensionType::try_from(k2).unwrap());
    ensures!(u32::from(e.extension_type()) == k2 && e.length() == n && e.boundary() == b, "setting the kind");
    e.set_length(n2);
    ensures!(u32::from(e.extension_type()) == k2 && e.length() == n2 && e.boundary() == b, "setting the length");
    e.set_boundary(b2);
    ensures!(u32::from(e.extension_type()) == k2 && e.length() == n2 && e.boundary() == b2, "setting the boundary");
    ensures!(e.try_extension_type().is_ok(), "a known kind is recognised");
});
