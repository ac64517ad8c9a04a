//! P20: looking up extensions finds the first one of the kind asked for, with
//! exactly its data, wherever it sits, skipping kinds it does not know.
use crate::env::*;
use nifty_asset_types::{extensions::*, state::Asset};

const A: usize = 168;
const H: usize = 16;
const CAP: usize = A + 3 * (H + 16) + H;

#[repr(C, align(8))]
struct Mem([u8; CAP]);

/// Up to three extensions, each with 0..=16 bytes of data (padded to 8), then
/// possibly room: less than a header, or an all-zero header.
struct Layout {
    mem: Mem,
    len: usize,
    n: usize,
    at: [usize; 3],
    ty: [u32; 3],
    size: [usize; 3],
    end: usize,
}

fn layout(kinds: bool) -> Layout {
    let mut mem = Mem(kani::any());
    let n: usize = kani::any();
    kani::assume(n <= 3);
    let (mut at, mut ty, mut size) = ([0; 3], [0u32; 3], [0usize; 3]);
    let mut p = A;
    let mut i = 0;
    while i < 3 {
        if i < n {
            let t: u32 = kani::any();
            kani::assume(t != 0 && (!kinds || t <= 11));
            let s: usize = kani::any();
            kani::assume(s <= 16);
            let b = p + H + (s + 7) / 8 * 8;
            put(&mut mem, p, t);
            put(&mut mem, p + 4, s as u32);
            put(&mut mem, p + 8, b as u32);
            at[i] = p;
            ty[i] = t;
            size[i] = s;
            p = b;
        }
        i += 1;
    }
    let room: usize = kani::any();
    kani::assume(room == 0 || room == 8 || room == H);
    if room == H {
        put(&mut mem, p, 0);
        put(&mut mem, p + 4, 0);
        put(&mut mem, p + 8, 0);
    }
    Layout { mem, len: p + room, n, at, ty, size, end: p }
}
fn put(m: &mut Mem, at: usize, v: u32) {
    let b = v.to_le_bytes();
    m.0[at] = b[0];
    m.0[at + 1] = b[1];
    m.0[at + 2] = b[2];
    m.0[at + 3] = b[3];
}
impl Layout {
    fn data(&self) -> &[u8] {
        &self.mem.0[..self.len]
    }
    fn first(&self, t: u32) -> Option<usize> {
        if self.n > 0 && self.ty[0] == t {
            Some(0)
        } else if self.n > 1 && self.ty[1] == t {
            Some(1)
        } else if self.n > 2 && self.ty[2] == t {
            Some(2)
        } else {
            None
        }
    }
}
fn kind() -> (ExtensionType, u32) {
    let k: u32 = kani::any();
    kani::assume(1 <= k && k <= 11);
    (ExtensionType::try_from(k).unwrap(), k)
}

proof!(contains, 6, {
    let l = layout(false);
    let (t, k) = kind();
    let r = Asset::contains(t, l.data());
    ensures!(r == l.first(k).is_some(), "contains: true exactly when an extension of the kind is present");
    reach!(r && l.first(k) == Some(2), "found last");
    reach!(!r && l.n == 3, "not found");
});

proof!(get_extension, 6, {
    let l = layout(false);
    let (t, k) = kind();
    let d = l.data();
    match (Asset::get_extension(t, d), l.first(k)) {
        (Some((e, at)), Some(i)) => {
            ensures!(at == l.at[i] + H, "get_extension: the offset of the first extension of the kind");
            ensures!(e.length() as usize == l.size[i], "get_extension: its header");
        }
        (None, None) => (),
        _ => ensures!(false, "get_extension: found exactly when present"),
    }
    reach!(l.first(k) == Some(2), "found last");
});

proof!(first_and_last, 6, {
    let l = layout(true);
    let d = l.data();
    match Asset::first_extension(d) {
        Some((e, at)) => {
            ensures!(l.n > 0 && at == A + H, "first_extension: right behind the header");
            ensures!(e.length() as usize == l.size[0] && u32::from(e.extension_type()) == l.ty[0], "first_extension: its header");
        }
        None => ensures!(l.n == 0, "first_extension: none only when there is none"),
    }
    match Asset::last_extension(d) {
        Some((e, at)) => {
            ensures!(l.n > 0 && at == l.at[l.n - 1] + H, "last_extension: the last one");
            ensures!(e.boundary() as usize == l.end, "last_extension: ends where the used data ends");
        }
        None => ensures!(l.n == 0, "last_extension: none only when there is none"),
    }
    reach!(l.n == 3 && l.len == l.end + H, "three and room");
});

proof!(list, 6, {
    let l = layout(false);
    let v = Asset::get_extensions(l.data());
    let known = |i: usize| i < l.n && l.ty[i] <= 11;
    let n = known(0) as usize + known(1) as usize + known(2) as usize;
    ensures!(v.len() == n, "get_extensions: one entry per recognised extension");
    let mut j = 0;
    if known(0) {
        ensures!(u32::from(v[j]) == l.ty[0], "get_extensions: in order (1)");
        j += 1;
    }
    if known(1) {
        ensures!(u32::from(v[j]) == l.ty[1], "get_extensions: in order (2)");
        j += 1;
    }
    if known(2) {
        ensures!(u32::from(v[j]) == l.ty[2], "get_extensions: in order (3)");
    }
    reach!(n == 3, "three recognised");
    reach!(l.n == 3 && n == 2 && l.ty[1] > 11, "one skipped");
});

/// Typed access returns exactly the bytes of the first extension of the kind.
proof!(get_data, 6, {
    let l = layout(false);
    let d = l.data();
    match (Asset::get::<Bucket>(d), l.first(11)) {
        (Some(b), Some(i)) => {
            ensures!(b.data.len() == l.size[i], "get: the length recorded in the header");
            ensures!(b.data.as_ptr() as usize == d.as_ptr() as usize + l.at[i] + H, "get: the data behind the header");
        }
        (None, None) => (),
        _ => ensures!(false, "get: found exactly when present"),
    }
    reach!(l.first(11) == Some(2), "found last");
});
proof!(get_data_relative, 6, {
    let l = layout(false);
    let d = l.data();
    match (Extension::get::<Bucket>(&d[A..]), l.first(11)) {
        (Some(b), Some(i)) => {
            ensures!(b.data.len() == l.size[i], "get on extension data: the length recorded in the header");
            ensures!(b.data.as_ptr() as usize == d.as_ptr() as usize + l.at[i] + H, "get on extension data: the data behind the header");
        }
        (None, None) => (),
        _ => ensures!(false, "get on extension data: found exactly when present"),
    }
    reach!(l.first(11) == Some(2), "found last");
});
proof!(get_data_mut, 6, {
    let mut l = layout(false);
    let (base, hit) = (l.mem.0.as_ptr() as usize, l.first(11));
    let len = l.len;
    match (Asset::get_mut::<BucketMut>(&mut l.mem.0[..len]), hit) {
        (Some(b), Some(i)) => {
            ensures!(b.data.len() == l.size[i], "get_mut: the length recorded in the header");
            ensures!(b.data.as_ptr() as usize == base + l.at[i] + H, "get_mut: the data behind the header");
        }
        (None, None) => (),
        _ => ensures!(false, "get_mut: found exactly when present"),
    }
    match (Extension::get_mut::<BucketMut>(&mut l.mem.0[A..len]), hit) {
        (Some(b), Some(i)) => {
            ensures!(b.data.len() == l.size[i], "get_mut on extension data: the length recorded in the header");
            ensures!(b.data.as_ptr() as usize == base + l.at[i] + H, "get_mut on extension data: the data behind the header");
        }
        (None, None) => (),
        _ => ensures!(false, "get_mut on extension data: found exactly when present"),
    }
    reach!(hit == Some(2), "found last");
});

/// Readers and writers of one kind of extension look for that kind.
proof!(kinds, 6, {
    macro_rules! kind_of {
        ($r:ident, $w:ident, $k:literal) => {
            ensures!(u32::from(<$r as ExtensionData>::TYPE) == $k, "the reader looks for its own kind");
            ensures!(u32::from(<$w as ExtensionDataMut>::TYPE) == $k, "the writer looks for its own kind");
        };
    }
    kind_of!(Attributes, AttributesMut, 1);
    kind_of!(Blob, BlobMut, 2);
    kind_of!(Creators, CreatorsMut, 3);
    kind_of!(Links, LinksMut, 4);
    kind_of!(Metadata, MetadataMut, 5);
    kind_of!(Grouping, GroupingMut, 6);
    kind_of!(Royalties, RoyaltiesMut, 7);
    kind_of!(Manager, ManagerMut, 8);
    kind_of!(Proxy, ProxyMut, 9);
    kind_of!(Properties, PropertiesMut, 10);
    kind_of!(Bucket, BucketMut, 11);
});
