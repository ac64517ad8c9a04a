//! P22: a royalty constraint passes exactly when its formula is true of the
//! accounts, and an account it needs but is not there is an error.
use crate::env::*;
use nifty_asset_types::constraints::{And, Assertable, Assertion, Constraint, Context, FromBytes, Or, Target};
use solana_program::pubkey::Pubkey;

pub struct Who {
    key: Pubkey,
    owner: Pubkey,
    empty: bool,
}
impl Target for Who {
    fn key(&self) -> &Pubkey {
        &self.key
    }
    fn owner(&self) -> &Pubkey {
        &self.owner
    }
    fn is_empty(&self) -> bool {
        self.empty
    }
}
fn who() -> Who {
    Who { key: Pubkey::new_from_array(kani::any()), owner: Pubkey::new_from_array(kani::any()), empty: kani::any() }
}
pub struct Cast {
    asset: Who,
    authority: Who,
    recipient: Who,
    has_recipient: bool,
}
fn cast() -> Cast {
    Cast { asset: who(), authority: who(), recipient: who(), has_recipient: kani::any() }
}
impl Cast {
    fn get(&self, account: u64) -> Option<&Who> {
        match account {
            0 => Some(&self.asset),
            1 => Some(&self.authority),
            _ => {
                if self.has_recipient {
                    Some(&self.recipient)
                } else {
                    None
                }
            }
        }
    }
    fn eval(&self, bytes: &[u8]) -> Option<bool> {
        let c = Constraint::from_bytes(bytes);
        let ctx = Context {
            asset: &self.asset,
            authority: &self.authority,
            recipient: if self.has_recipient { Some(&self.recipient) } else { None },
        };
        match c.assert(&ctx) {
            Ok(Assertion::Pass) => Some(true),
            Ok(Assertion::Failure) => Some(false),
            Err(_) => None,
        }
    }
}

pub const AND: u32 = 0;
pub const NOT: u32 = 1;
pub const OR: u32 = 2;
pub const OWNED_BY: u32 = 3;
pub const PUBKEY_MATCH: u32 = 4;
pub const EMPTY: u32 = 5;

#[repr(C, align(8))]
pub struct Leaf<const N: usize> {
    op: [u32; 2],
    account: u64,
    keys: [Key; N],
}
fn leaf<const N: usize>(op: u32) -> Leaf<N> {
    let account: u64 = kani::any();
    kani::assume(account <= 2);
    Leaf { op: [op, 8 + 32 * N as u32], account, keys: kani::any() }
}
fn raw<T>(t: &T) -> &[u8] {
    unsafe { core::slice::from_raw_parts(t as *const T as *const u8, core::mem::size_of::<T>()) }
}
impl<const N: usize> Leaf<N> {
    fn has(&self, k: &Pubkey) -> bool {
        let mut hit = false;
        let mut i = 0;
        while i < N {
            hit |= eq(&self.keys[i], k.as_ref());
            i += 1;
        }
        hit
    }
    /// The formula of the leaf; None: the account it names is not there.
    fn holds(&self, c: &Cast) -> Option<bool> {
        let w = c.get(self.account)?;
        Some(match self.op[0] {
            PUBKEY_MATCH => self.has(&w.key),
            _ => self.has(&w.owner) && !w.empty,
        })
    }
}

fn one<const N: usize>(op: u32) {
    let c = cast();
    let l = leaf::<N>(op);
    let r = c.eval(raw(&l));
    match l.holds(&c) {
        Some(v) => ensures!(r == Some(v), "an address list passes exactly when it names the account"),
        None => ensures!(r.is_none(), "a missing account is an error"),
    }
    reach!(r == Some(false), "fails");
}
proof!(match_one, 6, { one::<1>(PUBKEY_MATCH) });
proof!(match_two, 6, { one::<2>(PUBKEY_MATCH) });
proof!(match_none, 6, { one::<0>(PUBKEY_MATCH) });
proof!(owned_one, 6, { one::<1>(OWNED_BY) });
proof!(owned_two, 6, { one::<2>(OWNED_BY) });

proof!(empty, 6, {
    let c = cast();
    let op = Leaf::<0> { op: [EMPTY, 0], account: 0, keys: [] };
    ensures!(c.eval(&raw(&op)[..8]) == Some(true), "the empty constraint always passes");
});

#[repr(C, align(8))]
struct Un<A> {
    op: [u32; 2],
    a: A,
}
#[repr(C, align(8))]
struct Bin<A, B> {
    op: [u32; 2],
    a: A,
    b: B,
}
fn un<A>(op: u32, a: A) -> Un<A> {
    Un { op: [op, core::mem::size_of::<A>() as u32], a }
}
fn bin<A, B>(op: u32, a: A, b: B) -> Bin<A, B> {
    Bin { op: [op, (core::mem::size_of::<A>() + core::mem::size_of::<B>()) as u32], a, b }
}
fn not(a: Option<bool>) -> Option<bool> {
    a.map(|x| !x)
}
/// Left to right, stopping at the first operand that settles it.
fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match a {
        Some(true) => b,
        x => x,
    }
}
fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match a {
        Some(false) => b,
        x => x,
    }
}

proof!(negation, 6, {
    let c = cast();
    let t = un(NOT, leaf::<1>(PUBKEY_MATCH));
    ensures!(c.eval(raw(&t)) == not(t.a.holds(&c)), "not: passes exactly when its operand fails");
});
proof!(conjunction, 6, {
    let c = cast();
    let t = bin(AND, leaf::<1>(PUBKEY_MATCH), leaf::<1>(OWNED_BY));
    let r = c.eval(raw(&t));
    let (a, b) = (t.a.holds(&c), t.b.holds(&c));
    if r == Some(true) {
        ensures!(a == Some(true) && b == Some(true), "and: passes only if every operand passes");
    }
    if let (Some(a), Some(b)) = (a, b) {
        ensures!(r == Some(a && b), "and: passes exactly when every operand passes");
    }
    reach!(r == Some(true), "passes");
});
proof!(disjunction, 6, {
    let c = cast();
    let t = bin(OR, leaf::<1>(OWNED_BY), leaf::<1>(PUBKEY_MATCH));
    let r = c.eval(raw(&t));
    let (a, b) = (t.a.holds(&c), t.b.holds(&c));
    if r == Some(true) {
        ensures!(a == Some(true) || b == Some(true), "or: passes only if some operand passes");
    }
    if let (Some(a), Some(b)) = (a, b) {
        ensures!(r == Some(a || b), "or: passes exactly when some operand passes");
    }
    reach!(r == Some(false), "fails");
});
proof!(nested, 6, {
    let c = cast();
    let t = bin(AND, un(NOT, leaf::<1>(PUBKEY_MATCH)), bin(OR, leaf::<1>(OWNED_BY), leaf::<1>(PUBKEY_MATCH)));
    let r = c.eval(raw(&t));
    if let (Some(a), Some(b), Some(d)) = (t.a.a.holds(&c), t.b.a.holds(&c), t.b.b.holds(&c)) {
        ensures!(r == Some(!a && (b || d)), "nested constraints evaluate as the formula they write");
    }
    reach!(r == Some(true), "passes");
});
proof!(nested_or, 6, {
    let c = cast();
    let t = un(NOT, bin(OR, bin(AND, leaf::<1>(PUBKEY_MATCH), leaf::<1>(OWNED_BY)), leaf::<1>(PUBKEY_MATCH)));
    let r = c.eval(raw(&t));
    if let (Some(a), Some(b), Some(d)) = (t.a.a.a.holds(&c), t.a.a.b.holds(&c), t.a.b.holds(&c)) {
        ensures!(r == Some(!((a && b) || d)), "nested constraints evaluate as the formula they write (2)");
    }
    reach!(r == Some(true), "passes");
});
/// Lists of three operands: parsing yields the three in order ...
fn three(op: u32) -> Bin<Leaf<1>, [Leaf<1>; 2]> {
    Bin { op: [op, 3 * 48], a: leaf::<1>(PUBKEY_MATCH), b: [leaf::<1>(OWNED_BY), leaf::<1>(PUBKEY_MATCH)] }
}
macro_rules! parsed {
    ($list:ident, $t:ident) => {{
        let l = core::mem::ManuallyDrop::new($list::from_bytes(&raw(&$t)[8..]));
        ensures!(l.constraints.len() == 3, "a list has one entry per operand");
        let at = |i: usize| l.constraints[i].operator as *const _ as usize - raw(&$t).as_ptr() as usize;
        ensures!(at(0) == 8 && at(1) == 56 && at(2) == 104, "the operands of a list in order");
    }};
}
proof!(parse_three, 6, {
    let (t, u) = (three(AND), three(OR));
    parsed!(And, t);
    parsed!(Or, u);
});
/// ... and evaluation takes all of them into account.
macro_rules! evaluated {
    ($list:ident, $t:ident, $c:ident) => {{
        let mut v = Vec::with_capacity(4);
        v.push(Constraint::from_bytes(raw(&$t.a)));
        v.push(Constraint::from_bytes(raw(&$t.b[0])));
        v.push(Constraint::from_bytes(raw(&$t.b[1])));
        let l = $list { constraints: v };
        let ctx = Context {
            asset: &$c.asset,
            authority: &$c.authority,
            recipient: if $c.has_recipient { Some(&$c.recipient) } else { None },
        };
        match l.assert(&ctx) {
            Ok(Assertion::Pass) => Some(true),
            Ok(Assertion::Failure) => Some(false),
            Err(_) => None,
        }
    }};
}
proof!(and_three, 6, {
    let (c, t) = (cast(), three(AND));
    let r = evaluated!(And, t, c);
    if let (Some(x), Some(y), Some(z)) = (t.a.holds(&c), t.b[0].holds(&c), t.b[1].holds(&c)) {
        ensures!(r == Some(x && y && z), "and over three operands");
    }
    reach!(r == Some(true), "passes");
});
proof!(or_three, 6, {
    let (c, t) = (cast(), three(OR));
    let r = evaluated!(Or, t, c);
    if let (Some(x), Some(y), Some(z)) = (t.a.holds(&c), t.b[0].holds(&c), t.b[1].holds(&c)) {
        ensures!(r == Some(x || y || z), "or over three operands");
    }
    reach!(r == Some(false), "fails");
});
/// What follows a constraint in memory plays no part in it.
proof!(extent, 6, {
    let c = cast();
    let t = bin(AND, leaf::<1>(PUBKEY_MATCH), leaf::<1>(PUBKEY_MATCH));
    let r = c.eval(&raw(&t)[8..]);
    ensures!(r == t.a.holds(&c), "a constraint ends where its size says");
    let k = Constraint::from_bytes(&raw(&t)[8..]);
    ensures!(k.size() == 48, "the size of a constraint counts its header");
});
