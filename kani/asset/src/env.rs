//! Environment of the Asset program for the proof harnesses: the account
//! memory layout the Solana loader hands to the program, and the contracts of
//! the functions outside /repo that the program calls (system program CPIs,
//! sysvars, logging, syscalls).  Everything in this file is listed as an
//! assumption in the evidence.
use nifty_asset_types::constraints::{Assertable, Assertion, AssertionResult, Constraint, Context, Operator};
use nitrate::program::AccountInfo;
use solana_program::{program_error::ProgramError, pubkey::Pubkey, rent::Rent, system_program};

pub use asset_program::ID;
pub type Key = [u8; 32];

/// Account memory: nitrate's 88-byte account header followed by the data.
#[repr(C, align(8))]
#[derive(Clone, Copy)]
pub struct Acc<D> {
    pub borrow_state: u8,
    pub is_signer: u8,
    pub is_writable: u8,
    pub executable: u8,
    pub original_data_len: [u8; 4],
    pub key: Key,
    pub owner: Key,
    pub lamports: u64,
    pub data_len: u64,
    pub data: D,
}

/// Asset header (168 bytes), field by field.
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct Hdr {
    pub discriminator: u8,
    pub state: u8,
    pub standard: u8,
    pub mutable: u8,
    pub owner: Key,
    pub group: Key,
    pub authority: Key,
    pub delegate: Key,
    pub roles: u8,
    pub name: [u8; 35],
}

pub const HDR: usize = 168;
pub const EXT: usize = 16;

/// An extension slot: header and `N` bytes of data plus padding.
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct Ext<const N: usize> {
    pub h: [u32; 4],
    pub d: [u8; N],
}

/// An extension slot with typed data.
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct ExtT<D> {
    pub h: [u32; 4],
    pub d: D,
}
/// One typed extension slot.
#[repr(C, align(8))]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct T1<D> {
    pub a: Hdr,
    pub e: ExtT<D>,
}
/// Two typed extension slots.
#[repr(C, align(8))]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct T2<D, E> {
    pub a: Hdr,
    pub e: ExtT<D>,
    pub f: ExtT<E>,
}
/// Manager data: delegate address and roles, padded to 8 bytes.
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct ManagerData {
    pub delegate: Key,
    pub roles: u8,
    pub pad: [u8; 7],
}
/// Grouping data: size, maximum size (zero: unlimited), delegate (zero: none).
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct GroupingData {
    pub size: u64,
    pub max_size: u64,
    pub delegate: Key,
}
/// Royalties guarded by "the key of `account` is `key`".
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct RoyaltiesData {
    pub basis_points: u64,
    pub op: [u32; 2],
    pub account: u64,
    pub key: Key,
}
/// Proxy data, padded to 8 bytes (97 bytes are used).
#[repr(C)]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct ProxyData {
    pub program: Key,
    pub seeds: Key,
    pub bump: u8,
    pub authority: Key,
    pub pad: [u8; 7],
}
pub const OP_PUBKEY_MATCH: u32 = 4;

/// No extension.
#[repr(C, align(8))]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct L0 {
    pub a: Hdr,
}
/// One extension slot.
#[repr(C, align(8))]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct L1<const A: usize> {
    pub a: Hdr,
    pub e: Ext<A>,
}
/// Two extension slots.
#[repr(C, align(8))]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct L2<const A: usize, const B: usize> {
    pub a: Hdr,
    pub e: Ext<A>,
    pub f: Ext<B>,
}
/// Three extension slots.
#[repr(C, align(8))]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct L3<const A: usize, const B: usize, const C: usize> {
    pub a: Hdr,
    pub e: Ext<A>,
    pub f: Ext<B>,
    pub g: Ext<C>,
}
/// Data followed by the zeroed spare room the loader leaves for `realloc`.
#[repr(C, align(8))]
#[derive(Clone, Copy, kani::Arbitrary, PartialEq)]
pub struct Room<D, const T: usize> {
    pub d: D,
    pub room: [u8; T],
}

/// No data at all.
pub type Wallet = Acc<()>;

// Role masks and codes, stated independently of the code under proof.
pub const NON_FUNGIBLE: u8 = 0;
pub const MANAGED: u8 = 1;
pub const SOULBOUND: u8 = 2;
pub const PROXIED: u8 = 3;
pub const UNLOCKED: u8 = 0;
pub const LOCKED: u8 = 1;
pub const ROLE_TRANSFER: u8 = 0b001;
pub const ROLE_LOCK: u8 = 0b010;
pub const ROLE_BURN: u8 = 0b100;

pub const T_NONE: u32 = 0;
pub const T_ATTRIBUTES: u32 = 1;
pub const T_BLOB: u32 = 2;
pub const T_CREATORS: u32 = 3;
pub const T_LINKS: u32 = 4;
pub const T_METADATA: u32 = 5;
pub const T_GROUPING: u32 = 6;
pub const T_ROYALTIES: u32 = 7;
pub const T_MANAGER: u32 = 8;
pub const T_PROXY: u32 = 9;
pub const T_PROPERTIES: u32 = 10;
pub const T_BUCKET: u32 = 11;

/// Instruction tags (wire format).
pub mod tag {
    pub const CLOSE: u8 = 0;
    pub const BURN: u8 = 1;
    pub const CREATE: u8 = 2;
    pub const APPROVE: u8 = 3;
    pub const ALLOCATE: u8 = 4;
    pub const LOCK: u8 = 5;
    pub const REVOKE: u8 = 6;
    pub const TRANSFER: u8 = 7;
    pub const UNLOCK: u8 = 8;
    pub const UNVERIFY: u8 = 9;
    pub const UPDATE: u8 = 10;
    pub const VERIFY: u8 = 11;
    pub const WRITE: u8 = 12;
    pub const GROUP: u8 = 13;
    pub const UNGROUP: u8 = 14;
    pub const HANDOVER: u8 = 15;
    pub const REMOVE: u8 = 16;
    pub const RESIZE: u8 = 17;
}

pub const ZERO: Key = [0u8; 32];
pub const PROGRAM: Key = unsafe { core::mem::transmute::<Pubkey, Key>(ID) };
/// The system program's id is the all-zero key.
pub const SYSTEM: Key = ZERO;

/// A representative address where an account's presence must be a constant
/// (addresses are only ever compared for equality).
pub const GROUP_KEY: Key = [0x47; 32];

impl<D: kani::Arbitrary> Acc<D> {
    /// An arbitrary account whose data fills `D`.
    pub fn any() -> Self {
        let lamports: u64 = kani::any();
        // total supply of lamports is far below 2^62
        kani::assume(lamports < 1 << 62);
        Acc {
            borrow_state: 0,
            is_signer: kani::any::<bool>() as u8,
            is_writable: kani::any::<bool>() as u8,
            executable: 0,
            original_data_len: [0; 4],
            key: kani::any(),
            owner: kani::any(),
            lamports,
            data_len: core::mem::size_of::<D>() as u64,
            data: kani::any(),
        }
    }
}

impl<D> Acc<D> {
    pub fn signed(&self) -> bool {
        self.is_signer != 0
    }
    /// View of the account memory behind the header, whatever the current length.
    pub fn mem(&self) -> &[u8] {
        unsafe {
            core::slice::from_raw_parts(
                &self.data as *const D as *const u8,
                core::mem::size_of::<D>(),
            )
        }
    }
    pub fn byte(&self, i: usize) -> u8 {
        self.mem()[i]
    }
}

/// Asset account states that creation and every later instruction maintain.
pub fn valid_hdr(a: &Hdr) -> bool {
    a.discriminator <= 1 && a.state <= 1 && a.standard <= 3 && a.mutable <= 1
}

/// An existing asset of the program: what every instruction that touches an
/// asset must insist on.
pub fn is_asset<D>(acc: &Acc<D>, a: &Hdr) -> bool {
    acc.owner == PROGRAM && a.discriminator == 1
}

/// Key equality written out word by word (cheap for the solver).
pub fn eq(a: &[u8], b: &Key) -> bool {
    let w = |s: &[u8], i: usize| {
        u64::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3], s[i + 4], s[i + 5], s[i + 6], s[i + 7]])
    };
    w(a, 0) == w(b, 0) && w(a, 8) == w(b, 8) && w(a, 16) == w(b, 16) && w(a, 24) == w(b, 24)
}

/// Does `signer` hold `role`, as the delegate of the asset or through the
/// manager extension stored at `m` (32-byte address, role byte)?
pub fn is_delegate(a: &Hdr, signer: &Key, role: u8) -> bool {
    !eq(&a.delegate, &ZERO) && eq(&a.delegate, signer) && a.roles & role != 0
}
pub fn is_manager(m: &[u8], signer: &Key, role: u8) -> bool {
    eq(&m[0..32], signer) && m[32] & role != 0
}

/// Wallets taking part are not altered.
#[macro_export]
macro_rules! ensures_wallet_untouched {
    ($now:expr, $pre:expr, $m:literal) => {
        kani::assert(
            $crate::env::refused() || eq(&$now.key, &$pre.key)
                && eq(&$now.owner, &$pre.owner)
                && $now.lamports == $pre.lamports
                && $now.data_len == $pre.data_len
                && $now.is_signer == $pre.is_signer,
            concat!("POST: ", $m),
        )
    };
}

/// nitrate's `AccountInfo` is a `#[repr(C)]` wrapper around the raw account pointer.
pub fn info<D>(a: &mut Acc<D>) -> AccountInfo {
    let p = a as *mut Acc<D>;
    unsafe { core::mem::transmute::<*mut Acc<D>, AccountInfo>(p) }
}

/// A fresh account: no data, system owned, unfunded.
pub fn blank<D>() -> Acc<D> {
    Acc {
        borrow_state: 0,
        is_signer: kani::any::<bool>() as u8,
        is_writable: 1,
        executable: 0,
        original_data_len: [0; 4],
        key: kani::any(),
        owner: SYSTEM,
        lamports: 0,
        data_len: 0,
        data: unsafe { core::mem::zeroed() },
    }
}

/// Instruction data: fixed bytes, then arbitrary ones (`D` holds bytes only).
#[repr(C)]
pub struct Args<const N: usize, D> {
    pub head: [u8; N],
    pub d: D,
}
impl<const N: usize, D> Args<N, D> {
    pub fn as_bytes(&self) -> &[u8] {
        unsafe { core::slice::from_raw_parts(self as *const Self as *const u8, core::mem::size_of::<Self>()) }
    }
}
/// The first `n` bytes of a value.
pub fn bytes<T>(t: &mut T, n: usize) -> &mut [u8] {
    unsafe { core::slice::from_raw_parts_mut(t as *mut T as *mut u8, n) }
}

/// Optional account left out: the loader convention is the program id itself.
pub fn absent() -> Wallet {
    Acc {
        borrow_state: 0,
        is_signer: 0,
        is_writable: 0,
        executable: 1,
        original_data_len: [0; 4],
        key: PROGRAM,
        owner: kani::any(),
        lamports: 1,
        data_len: 0,
        data: (),
    }
}

/// The contract of the program's entry point is stated over this call.
pub fn invoke(accounts: &[AccountInfo], data: &[u8]) -> bool {
    #[cfg(test)]
    playback::install();
    verdict(asset_program::processor::process_instruction(&ID, accounts, data).is_ok())
}
/// The runtime rolls back an instruction that returns an error.
static mut REFUSED: bool = false;
pub fn refused() -> bool {
    unsafe { REFUSED }
}
fn verdict(ok: bool) -> bool {
    unsafe { REFUSED = !ok }
    ok
}

/// `kani::assert` with the property's name in the message.
#[macro_export]
macro_rules! ensures {
    ($c:expr, $m:literal) => {
        kani::assert($c, concat!("POST: ", $m))
    };
}
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        kani::cover($c, concat!("REACH: ", $m))
    };
}

/// All bytes `lo..hi` of two account memories agree.
#[macro_export]
macro_rules! ensures_same {
    ($a:expr, $b:expr, $lo:expr, $hi:expr, $m:literal) => {{
        let i: usize = kani::any();
        kani::assume($lo <= i && i < $hi);
        kani::assert($crate::env::refused() || $a.byte(i) == $b.byte(i), concat!("POST: ", $m));
    }};
}

// ---------------------------------------------------------------- stubs

pub static mut STACK_HEIGHT: usize = 1;

pub fn stack_height(h: usize) {
    unsafe { STACK_HEIGHT = h }
}
pub fn get_stack_height() -> usize {
    unsafe { STACK_HEIGHT }
}

pub fn sol_log(_m: &str) {}
pub fn sol_log_data(_d: &[&[u8]]) {}
pub fn format(_a: core::fmt::Arguments<'_>) -> String {
    String::new()
}
/// String arguments are valid UTF-8.
pub fn from_utf8(v: Vec<u8>) -> Result<String, std::string::FromUtf8Error> {
    Ok(unsafe { String::from_utf8_unchecked(v) })
}
/// Decoding errors own nothing that matters.
pub fn drop_io_error<T>(_e: &mut T) {}
pub fn is_aligned_to(_ptr: *const (), _align: usize) -> bool {
    true
}

pub fn rent_get() -> Result<Rent, ProgramError> {
    Ok(Rent {
        lamports_per_byte_year: 3480,
        exemption_threshold: 2.0,
        burn_percent: 50,
    })
}
/// Rent-exempt minimum for the cluster parameters above, in integers.
pub fn rent_for(size: usize) -> u64 {
    (128 + size as u64) * 6960
}
pub fn minimum_balance(_r: &Rent, size: usize) -> u64 {
    rent_for(size)
}

/// Byte by byte, sixteen at a time (a block copy would lose known bytes).
unsafe fn copy_bytes(dst: *mut u8, src: *const u8, n: usize) {
    macro_rules! one {
        ($i:ident $($k:literal)*) => {
            $(if $i + $k < n {
                *dst.wrapping_add($i + $k) = *src.wrapping_add($i + $k);
            })*
        };
    }
    let mut i = 0;
    while i < n {
        one!(i 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
        i += 16;
    }
}
pub fn sol_memcpy(dst: &mut [u8], src: &[u8], n: usize) {
    // the real function panics when either slice is shorter
    kani::assume(n <= dst.len() && n <= src.len());
    unsafe { copy_bytes(dst.as_mut_ptr(), src.as_ptr(), n) }
}
pub unsafe fn sol_memmove(dst: *mut u8, src: *mut u8, n: usize) {
    let mut t = [0u8; 256];
    kani::assert(n <= t.len(), "ENV: memmove of more than 256 bytes");
    copy_bytes(t.as_mut_ptr(), src, n);
    copy_bytes(dst, t.as_ptr(), n);
}

/// Address derivation: some address or an error; the call is recorded.
pub struct Derivation {
    pub calls: u8,
    pub program: Key,
    pub seeds: Key,
    pub bump: u8,
    pub address: Key,
}
pub static mut DERIVATION: Derivation = Derivation { calls: 0, program: ZERO, seeds: ZERO, bump: 0, address: ZERO };
pub fn create_program_address(seeds: &[&[u8]], program: &Pubkey) -> Result<Pubkey, solana_program::pubkey::PubkeyError> {
    kani::assert(seeds.len() == 2 && seeds[0].len() == 32 && seeds[1].len() == 1, "ENV: derivation from a 32-byte seed and a bump");
    let address: Key = kani::any();
    unsafe {
        DERIVATION.calls += 1;
        DERIVATION.program = program.to_bytes();
        copy_bytes(core::ptr::addr_of_mut!(DERIVATION.seeds) as *mut u8, seeds[0].as_ptr(), 32);
        DERIVATION.bump = seeds[1][0];
        DERIVATION.address = address;
    }
    if kani::any() {
        Ok(Pubkey::new_from_array(address))
    } else {
        Err(solana_program::pubkey::PubkeyError::InvalidSeeds)
    }
}

fn raw(a: &AccountInfo) -> *mut Acc<()> {
    unsafe { core::mem::transmute_copy::<AccountInfo, *mut Acc<()>>(a) }
}

/// System program `Transfer`: aborts the transaction unless the source signed,
/// is a system account and has the funds.
pub fn system_transfer(from: &AccountInfo, to: &AccountInfo, amount: u64) {
    let (f, t) = (raw(from), raw(to));
    unsafe {
        kani::assume((*f).is_signer != 0 && (*f).owner == SYSTEM && (*f).lamports >= amount);
        (*f).lamports -= amount;
        (*t).lamports += amount;
    }
}

/// System program `CreateAccount`: aborts unless both signed and the new
/// account is empty and unfunded; the new data is zeroed.
pub fn system_create_account(
    from: &AccountInfo,
    to: &AccountInfo,
    lamports: u64,
    space: u64,
    owner: &Pubkey,
) {
    let (f, t) = (raw(from), raw(to));
    unsafe {
        kani::assume((*f).is_signer != 0 && (*f).owner == SYSTEM && (*f).lamports >= lamports);
        kani::assume((*t).is_signer != 0 && (*t).owner == SYSTEM && (*t).lamports == 0);
        kani::assume((*t).data_len == 0);
        (*f).lamports -= lamports;
        (*t).lamports = lamports;
        (*t).data_len = space;
        (*t).owner = owner.to_bytes();
    }
}

/// Stands in for the constraint parser where the accounts under proof carry
/// no royalties: reaching it means the harness does not cover that code.
pub fn no_constraint<'a>(_b: &'a [u8]) -> Constraint<'a>
where
    'a: 'a,
{
    kani::assert(false, "ENV: constraint parsed although no royalties are present");
    kani::assume(false);
    loop {}
}

/// Contract of the constraint parser for a "key of `account` is `key`"
/// constraint; the types crate proves the real parser and evaluator meet it.
/// For any other bytes the contract promises nothing.
pub fn match_constraint<'a>(b: &'a [u8]) -> Constraint<'a>
where
    'a: 'a,
{
    kani::assume(b.len() >= 8);
    let w = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let known = b.len() >= 48 && w(0) == OP_PUBKEY_MATCH && w(4) == 40;
    let m = if known {
        let mut key = [0u8; 32];
        unsafe { core::ptr::copy_nonoverlapping(b.as_ptr().add(16), key.as_mut_ptr(), 32) };
        Match { account: w(8), key, unknown: false }
    } else {
        Match { account: 0, key: ZERO, unknown: true }
    };
    Constraint { operator: unsafe { &*(b.as_ptr() as *const Operator) }, assertable: Box::new(m) }
}
struct Match {
    account: u32,
    key: Key,
    unknown: bool,
}
impl Assertable for Match {
    fn assert(&self, c: &Context) -> AssertionResult {
        let who = match self.account {
            0 => c.asset,
            1 => c.authority,
            _ => match c.recipient {
                Some(r) => r,
                None => return Err(ProgramError::NotEnoughAccountKeys),
            },
        };
        let hit = if self.unknown { kani::any() } else { eq(who.key().as_ref(), &self.key) };
        Ok(if hit { Assertion::Pass } else { Assertion::Failure })
    }
    fn as_bytes(&self) -> Vec<u8> {
        kani::assume(false);
        loop {}
    }
}

/// One proof harness with the environment contracts in place.
#[macro_export]
macro_rules! proof_attrs {
    ($name:ident, $unwind:literal, $body:block, $(#[$m:meta])*) => {
        #[kani::proof]
        #[kani::stub(solana_program::log::sol_log, crate::env::sol_log)]
        #[kani::stub(std::fmt::format, crate::env::format)]
        #[kani::stub(std::string::String::from_utf8, crate::env::from_utf8)]
        #[kani::stub(bytemuck::internal::is_aligned_to, crate::env::is_aligned_to)]
        #[kani::stub(<solana_program::rent::Rent as solana_program::sysvar::Sysvar>::get, crate::env::rent_get)]
        #[kani::stub(solana_program::rent::Rent::minimum_balance, crate::env::minimum_balance)]
        #[kani::stub(solana_program::instruction::get_stack_height, crate::env::get_stack_height)]
        #[kani::stub(solana_program::program_memory::sol_memcpy, crate::env::sol_memcpy)]
        #[kani::stub(solana_program::program_memory::sol_memmove, crate::env::sol_memmove)]
        #[kani::stub(solana_program::pubkey::Pubkey::create_program_address, crate::env::create_program_address)]
        #[kani::stub(nitrate::program::system::transfer, crate::env::system_transfer)]
        #[kani::stub(nitrate::program::system::create_account, crate::env::system_create_account)]
        $(#[$m])*
        #[kani::unwind($unwind)]
        pub fn $name() $body
    };
}
/// Account layouts with royalties: the constraint parser is replaced by its contract.
#[macro_export]
macro_rules! proof_royalties {
    ($name:ident, $unwind:literal, $body:block) => {
        $crate::proof_attrs!($name, $unwind, $body,
            #[kani::stub(<nifty_asset_types::constraints::Constraint as nifty_asset_types::constraints::FromBytes>::from_bytes, crate::env::match_constraint)]
        );
    };
}
/// The decoder's result type loses the arguments as constants, so the routes
/// below call the instruction behind the dispatcher (whose part is exercised by
/// P13 and the other properties): `process_*` of the program takes the place of
/// the function of that name in `direct`.  With the feature `wire`, and in a
/// replay, they go through the dispatcher.
#[cfg(any(test, feature = "wire"))]
fn wire(accounts: &[AccountInfo], i: asset_program::instruction::Instruction) -> bool {
    invoke(accounts, &borsh::BorshSerialize::try_to_vec(&i).unwrap())
}
macro_rules! invoke_directly {
    ($name:ident, $f:ident, $variant:ident, $arg:ty) => {
        pub fn $name(accounts: &[AccountInfo], arg: $arg) -> bool {
            #[cfg(any(test, feature = "wire"))]
            return wire(accounts, asset_program::instruction::Instruction::$variant(arg));
            #[cfg(not(any(test, feature = "wire")))]
            match asset_program::instruction::accounts::$variant::context(accounts) {
                Ok(ctx) => verdict(direct::$f(&ID, ctx, arg).is_ok()),
                Err(_) => verdict(false),
            }
        }
    };
}
invoke_directly!(invoke_remove, process_remove, Remove, nifty_asset_types::extensions::ExtensionType);
invoke_directly!(invoke_allocate, process_allocate, Allocate, asset_program::instruction::AllocateInput);
invoke_directly!(invoke_write, process_write, Write, asset_program::instruction::DataInput);
invoke_directly!(invoke_update, process_update, Update, asset_program::instruction::UpdateInput);
pub mod direct {
    use asset_program::instruction::{accounts::*, AllocateInput, DataInput, UpdateInput};
    use nifty_asset_types::extensions::ExtensionType;
    use solana_program::{entrypoint::ProgramResult, pubkey::Pubkey};
    pub fn process_remove(_: &Pubkey, _: Context<Remove>, _: ExtensionType) -> ProgramResult {
        unreachable!()
    }
    pub fn process_allocate(_: &Pubkey, _: Context<Allocate>, _: AllocateInput) -> ProgramResult {
        unreachable!()
    }
    pub fn process_update(_: &Pubkey, _: Context<Update>, _: UpdateInput) -> ProgramResult {
        unreachable!()
    }
    pub fn process_write(_: &Pubkey, _: Context<Write>, _: DataInput) -> ProgramResult {
        unreachable!()
    }
}
#[cfg(not(feature = "wire"))]
#[macro_export]
macro_rules! proof_direct {
    ($name:ident, $unwind:literal, $body:block) => {
        $crate::proof_attrs!($name, $unwind, $body,
            #[kani::stub(<nifty_asset_types::constraints::Constraint as nifty_asset_types::constraints::FromBytes>::from_bytes, crate::env::no_constraint)]
            #[kani::stub(crate::env::direct::process_remove, asset_program::processor::remove::process_remove)]
            #[kani::stub(crate::env::direct::process_allocate, asset_program::processor::allocate::process_allocate)]
            #[kani::stub(crate::env::direct::process_update, asset_program::processor::update::process_update)]
            #[kani::stub(crate::env::direct::process_write, asset_program::processor::write::process_write)]
        );
    };
}
#[cfg(feature = "wire")]
#[macro_export]
macro_rules! proof_direct {
    ($name:ident, $unwind:literal, $body:block) => { $crate::proof!($name, $unwind, $body); };
}
/// Account layouts without royalties.
#[macro_export]
macro_rules! proof {
    ($name:ident, $unwind:literal, $body:block) => {
        $crate::proof_attrs!($name, $unwind, $body,
            #[kani::stub(<nifty_asset_types::constraints::Constraint as nifty_asset_types::constraints::FromBytes>::from_bytes, crate::env::no_constraint)]
        );
    };
}

#[cfg(test)]
pub mod playback {
    use solana_program::{program_stubs::*, rent::Rent};
    struct S;
    impl SyscallStubs for S {
        fn sol_log(&self, _m: &str) {}
        fn sol_get_rent_sysvar(&self, v: *mut u8) -> u64 {
            unsafe { *(v as *mut Rent) = super::rent_get().unwrap() }
            0
        }
        fn sol_get_stack_height(&self) -> u64 {
            super::get_stack_height() as u64
        }
    }
    pub fn install() {
        set_syscall_stubs(Box::new(S));
    }
}
