"""The properties, how each is decided, and what is assumed.  gen.py writes
properties.jsonl and MANIFEST.json from this file."""

TRUSTED = [
    "Kani 0.68.0 compiler (MIR to GOTO translation)",
    "CBMC 6.11.0 and its SAT back end",
    "the contracts of code outside /repo listed under assumptions",
    "rustc (the BPF build is compiled from the same source by a different back end)",
]

ENV_ASSET = [
    "accounts: the loader hands each account as nitrate's 88-byte header followed by the data; distinct accounts do not overlap (harnesses that alias two accounts say so)",
    "an instruction that returns an error or panics has no effect (runtime rollback), so postconditions on the accounts are stated for instructions that succeed; panics end the path and are not violations, except in harnesses named *_total",
    "overflow checks are on in the verified build (an overflow panics); the deployed build wraps in release mode, so arithmetic that could wrap is pinned by explicit postconditions where a property depends on it",
    "assumed contract: system program Transfer/CreateAccount via nitrate (source signed, is a system account and has the funds; new account signed, empty and unfunded; new data is zeroed)",
    "assumed contract: rent is (128 + size) * 6960 lamports; get_stack_height returns any value; logging and formatting have no effect",
    "assumed contract: sol_memcpy/sol_memmove copy the bytes; memcmp is the loop-free definition in kani/asset/mem.c",
    "assumed: account data is 8-byte aligned (the bytemuck alignment test is replaced by true)",
    "lamport balances are below 2^62 each",
    "string arguments are valid UTF-8 (String::from_utf8 is replaced by its success case)",
    "memory-safety and arithmetic-overflow side conditions are not obligations of these checks",
    "update, remove, allocate and write with structured arguments (parts of P07, P11, P12, P15, P17) are called as process_* behind the dispatcher with decoded arguments; the dispatcher and decoder are under contract in the other properties and in every replay",
]
ENV_TYPES = [
    "the data slice is 8-byte aligned, as account data is on chain (the bytemuck alignment test is replaced by true)",
    "format! and logging have no effect; memcmp is the loop-free definition in kani/types/mem.c",
    "overflow checks are on in the verified build (an overflow panics)",
    "memory-safety and arithmetic-overflow side conditions are not obligations of these checks",
]
ASSUMPTIONS = {
    "asset": ENV_ASSET,
    "types": ENV_TYPES,
}

PROC = "programs/asset/program/src/processor/"
TYPES = "programs/asset/types/src/"

INPUTS = "inputs"


def P(**k):
    k.setdefault("crate", "asset")
    k.setdefault("level", "other")
    k.setdefault("over", ["inputs"])
    return k


PROPS = {
    "P01": P(
        title="Only the owner, a transfer delegate or manager moves an asset",
        statement="A transfer succeeds only when the acting account signed and is the asset's owner, its delegate holding the transfer role, or a manager holding the transfer role, and never for a soulbound asset; each of those holders is accepted on an ordinary unlocked asset. Afterwards the named recipient owns the asset and the delegate is cleared (a transfer to the current owner changes nothing). Every other byte of the asset, its size, lamports and program owner stay as they were.",
        text="every asset header, delegate, manager record, signer, recipient, account flag and call depth",
        why="The authorization is a conjunction over header fields, extension bytes and account flags; tests sample a few wallets, not every combination of roles, standards and aliased accounts.",
        files=[PROC + "transfer.rs", "programs/asset/program/src/utils.rs", PROC + "mod.rs"],
        mech=[("owner / delegate / manager test", PROC + "transfer.rs: process_transfer"),
              ("delegate role test", "programs/asset/program/src/utils.rs: assert_delegate"),
              ("manager lookup", TYPES + "extensions/mod.rs: Extension::get")],
        bounds="asset layouts: no extension; one manager extension; any two extensions of any type code (40 data bytes each). All field values, addresses, flags and the call depth are unconstrained.",
    ),
    "P02": P(
        title="Royalty constraints decide every non-exempt change of owner",
        statement="When an asset carries royalties, or belongs to a group that does, a transfer to a new owner succeeds only if it is a top-level transfer between two system-program wallets or the royalty constraint passes for the asset, the acting account and the recipient. A grouped asset without royalties of its own changes owner only when its own group account, an initialized asset of the program, is supplied. A transfer by the owner that satisfies the constraint or the exemption is not refused, and the group is not changed.",
        text="every asset, group, constraint address, signer, recipient, wallet program and call depth",
        why="Whether the constraint is consulted depends on who owns the wallets, the call depth, and where the royalties sit; the tests cover one route of each.",
        files=[PROC + "transfer.rs", "programs/asset/program/src/utils.rs", TYPES + "extensions/royalties.rs"],
        mech=[("royalty enforcement", "programs/asset/program/src/utils.rs: process_royalties!"),
              ("group fallback", PROC + "transfer.rs: process_transfer")],
        bounds="royalties as the first extension of the asset or of the group; constraint 'key of <asset|authority|recipient> equals k' for every k, standing for an arbitrary verdict; group address fixed to a representative where its presence must be constant.",
        assumptions=["assumed contract: the constraint parser, for a one-key address constraint (proved against the real parser by P22)"],
    ),
    "P03": P(
        title="A locked asset is frozen",
        statement="While an asset is locked, transfer, burn, lock, approve and revoke are all refused, whoever signs.",
        text="every locked asset (any standard, owner, delegate, manager) and every set of accompanying accounts",
        why="A single forgotten instruction or account position reopens the freeze; tests check the freeze for particular signers only.",
        files=[PROC + "mod.rs"],
        mech=[("lock gate", PROC + "mod.rs: validate_access and process_instruction")],
        bounds="asset layout with one manager extension; approve/revoke arguments 'all' and one listed role.",
    ),
    "P04": P(
        title="Locking and unlocking follow the lock role and change only the state",
        statement="Lock and unlock succeed only with the signature of the asset's delegate holding the lock role, of a manager holding the lock role, or of the owner when no delegate is set; a holder of that right is not refused. They set the state and change no other byte, size, balance or program owner.",
        text="every asset, every pair of extensions, every signer",
        why="The rule differs with and without a delegate and with a manager extension anywhere in the asset; tests sample a few of these cases.",
        files=[PROC + "lock.rs", PROC + "unlock.rs", "programs/asset/program/src/utils.rs"],
        mech=[("lock authority", PROC + "lock.rs: process_lock"), ("unlock authority", PROC + "unlock.rs: process_unlock")],
        bounds="asset layouts: no extension; any two extensions of any type code.",
    ),
    "P05": P(
        title="Delegate roles are granted only by the owner and exactly as named",
        statement="Approve succeeds only with the owner's signature and makes the named account the delegate with exactly the named roles, added to those the same delegate already held and never inherited from another delegate. Revoke succeeds only with the signature of the owner or the delegate and removes exactly the named roles, clearing the delegate when none is left. Nothing else in the asset changes, and the owner of an unlocked asset is not refused.",
        text="every asset state, delegate, role set and signer; listed role combinations",
        why="Role bits combine and persist across calls; tests check some combinations from a clean state.",
        files=[PROC + "approve.rs", PROC + "revoke.rs", TYPES + "state/delegate.rs"],
        mech=[("approve", PROC + "approve.rs: process_approve"), ("revoke", PROC + "revoke.rs: process_revoke"),
              ("role bits", TYPES + "state/delegate.rs: Delegate::enable, disable")],
        bounds="argument lists: all; {none}; {transfer}; {lock, burn}; {burn, transfer, lock}. Every prior delegate and role byte (revoke: role bytes below 8).",
    ),
    "P06": P(
        title="Burning is authorized, empties the account and keeps group counts right",
        statement="A burn succeeds only with the signature of the owner, the delegate holding the burn role or a manager holding the burn role, on an unlocked asset. The account is then closed (no lamports, no data, system-owned) and all its lamports go to the recipient, or to the signer when none is named. Burning a member lowers its own group's size by exactly one and changes nothing else there; a group that still has members is never burnt.",
        text="every asset, group, signer and recipient",
        why="Group accounting must stay exact over every history of burns; tests burn a few assets in one order.",
        files=[PROC + "burn.rs", "programs/asset/program/src/utils.rs"],
        mech=[("burn authority and group accounting", PROC + "burn.rs: process_burn"),
              ("closing", "programs/asset/program/src/utils.rs: close_program_account")],
        bounds="asset with one manager or one grouping extension or none; group with one grouping extension.",
    ),
    "P07": P(
        title="Metadata changes need the authority's signature and a mutable asset",
        statement="Handing over the authority, updating, resizing or removing an extension succeeds only with the signature of the asset's current authority and only while the asset is mutable; a handover also needs the new authority's signature. An update sets the name and mutable flag asked for and keeps what was not asked for, a handover sets the authority and nothing else, and a resize keeps every byte of header and extensions. No such instruction touches the owner, standard, state, group or delegate, and an authorized one is not refused.",
        text="every asset header, authority account, payer and balance",
        why="Each instruction repeats the gate by hand; tests try one wrong signer on some of them.",
        files=[PROC + "update.rs", PROC + "handover.rs", PROC + "resize.rs", PROC + "remove.rs"],
        mech=[("update gate", PROC + "update.rs: process_update"), ("handover", PROC + "handover.rs: process_handover"),
              ("resize", PROC + "resize.rs: process_resize; " + PROC + "mod.rs: resize"), ("remove gate", PROC + "remove.rs: process_remove")],
        bounds="assets with one 8-byte extension (handover: none); the new name is a three-letter representative; resize by trimming 16 bytes of room or adding 8.",
    ),
    "P08": P(
        title="Group membership and group size stay in step",
        statement="An asset joins a group only when it is in none, the group's authority or grouping delegate signs, both assets have the same authority and the group's size limit is not reached; the size then grows by exactly one and the asset refers to that group. It leaves only its own group, with the same signature, and the size drops by exactly one. Everything else in both accounts is kept, an asset that is not a group never takes members, and an authorized request is not refused.",
        text="every pair of assets, sizes, limits, delegates and signers",
        why="The size must equal the number of members after every history; tests group and ungroup one asset.",
        files=[PROC + "group.rs", PROC + "ungroup.rs", TYPES + "extensions/grouping.rs"],
        mech=[("join", PROC + "group.rs: process_group"), ("leave", PROC + "ungroup.rs: process_ungroup")],
        bounds="asset without extensions; group with one grouping extension, or one extension of any other kind.",
        assumptions=["a member of a group is counted in its size (invariant kept by the instructions of P06, P08 and P14)"],
    ),
    "P10": P(
        title="Creators are verified only by their own signature; shares total 100",
        statement="A creator entry becomes verified only when that creator signed: by verifying itself, or by being the signing authority of the creation or update that introduces it; replacing the list keeps the flags of creators already listed and never drops a verified one. Verify and unverify change the flag of the signer's own entries and nothing else. Every list stored in an asset by creation or update, whether from the instruction or a buffer, has shares totalling exactly 100.",
        text="every creator list of up to three entries, address, flag, share, signer and authority",
        why="The rules apply on five different routes into the account; tests follow one route with honest data.",
        files=[TYPES + "extensions/creators.rs", PROC + "verify.rs", PROC + "unverify.rs", PROC + "create.rs", PROC + "update.rs"],
        mech=[("list rules", TYPES + "extensions/creators.rs: CreatorsMut::on_create, on_update"),
              ("routes", PROC + "create.rs: process_create; " + PROC + "update.rs: process_update, validate"),
              ("flags", PROC + "verify.rs: process_verify; " + PROC + "unverify.rs: process_unverify")],
        bounds="list rules: up to three new entries, two old against two new; verify/unverify on two entries; routes with one entry.",
        assumptions=["entries of one address in a list carry one flag (kept by every instruction)"],
    ),
    "P11": P(
        title="Group sizes, royalty rates and proxy records keep their rules on every route",
        statement="A group starts empty, and replacing its grouping record keeps the number of members and never sets a limit below it; a group with members never loses the record. Royalties never exceed 10000 basis points. A replaced proxy record keeps its program, seeds and bump; the rules hold whether the data comes with the instruction, from a prepared account or from a buffer, and such records cannot be emptied by an update without data.",
        text="every old and new record, on creation and on update from arguments or a buffer",
        why="The rules must hold on each route by which data can enter an account; tests use the library's builders with well-formed values on one route.",
        files=[TYPES + "extensions/grouping.rs", TYPES + "extensions/royalties.rs", TYPES + "extensions/proxy.rs", PROC + "update.rs", PROC + "create.rs", PROC + "remove.rs"],
        mech=[("rules", TYPES + "extensions/mod.rs: on_create, on_update; GroupingMut, RoyaltiesMut, ProxyMut"),
              ("routes", PROC + "create.rs: process_create; " + PROC + "update.rs: process_update, validate; " + PROC + "remove.rs: process_remove")],
        bounds="one extension in the account; royalties with a one-key constraint.",
        assumptions=["assumed contract: the constraint parser, for a one-key address constraint (proved against the real parser by P22)"],
    ),
    "P12": P(
        title="Managed and proxied assets always carry their manager or proxy record",
        statement="Creation succeeds with a manager record exactly for a managed asset and with a proxy record exactly for a proxied one, and the proxy record must name the address derived for the asset. Afterwards no update, from arguments, without data or from a buffer, and no removal adds such a record to another asset, takes it away or empties it. A manager record may be replaced only by the authority, with exactly the given data.",
        text="every asset standard, record content and route",
        why="The pairing of standard and record is enforced separately in creation, update and removal; tests create one asset of each standard.",
        files=[PROC + "create.rs", PROC + "update.rs", PROC + "remove.rs", TYPES + "extensions/manager.rs", TYPES + "extensions/proxy.rs"],
        mech=[("creation rules", PROC + "create.rs: process_create"), ("update rules", PROC + "update.rs: process_update"), ("removal rules", PROC + "remove.rs: process_remove")],
        bounds="one extension in the account (additions: behind one other extension); standards one by one.",
        assumptions=["assumed contract: the program-address derivation is a function of seeds, bump and program"],
    ),
    "P13": P(
        title="A proxied asset takes part only with its own signature",
        statement="No instruction that changes an existing proxied asset succeeds unless the asset account itself signed, whoever else signs: transfer, burn, lock, unlock, approve, revoke, verify, unverify, update, group, ungroup, handover, remove and resize. With that signature the instructions work as for other assets.",
        text="every proxied asset and every set of accompanying accounts",
        why="The gate sits in front of every instruction; one instruction left out is enough to bypass the proxy program, and tests exercise the gate on a few.",
        files=[PROC + "mod.rs"],
        mech=[("access gate", PROC + "mod.rs: validate_access and process_instruction")],
        bounds="asset without extensions, or one extension where the instruction needs it.",
    ),
    "P14": P(
        title="Creating an asset stores what was asked for and nothing else",
        statement="Creation succeeds only with the new account's signature, never on an existing asset, and gives an unlocked asset with the named owner, authority, standard, mutability and name, no delegate, and the given or prepared extensions in order. The payer signs and pays exactly the rent. A created member of a group follows the rules of joining: the group's authority or grouping delegate signs, both have the same authority, the limit is respected and the size grows by exactly one.",
        text="every account, wallet, flag, balance, group record and extension content",
        why="Creation has several routes (new account, prepared account, with arguments, into a group); tests follow each once with honest callers.",
        files=[PROC + "create.rs", PROC + "allocate.rs", PROC + "group.rs"],
        mech=[("creation", PROC + "create.rs: process_create"), ("rent and room", PROC + "allocate.rs: process_allocate"), ("joining", PROC + "create.rs: process_create, group branch")],
        bounds="name of three letters; no, one prepared (8 bytes) or two given extensions (8 and 12 bytes); group with one grouping extension.",
        assumptions=["a buffer's header is empty (kept by the instructions of P17)"],
    ),
    "P15": P(
        title="Changing one extension keeps the others and the layout intact",
        statement="After an update that replaces, grows, shrinks or adds an extension, or a removal, the asset holds the changed extension with exactly the given data, every other extension with its kind, length and data, in order, and each recorded boundary is where the next one starts. The header is kept, the account covers its extensions and stays rent exempt, and lamports move only between the asset and the paying or receiving wallet. Removing an absent kind, or naming no kind, is refused.",
        text="every extension content, balance and wallet, for each covered layout and size change",
        why="The bytes behind the changed extension are moved and their boundaries rewritten in place; tests change the only or last extension.",
        files=[PROC + "update.rs", PROC + "remove.rs", PROC + "mod.rs"],
        mech=[("in-place move", PROC + "update.rs: process_update"), ("removal", PROC + "remove.rs: process_remove"), ("size and rent", PROC + "mod.rs: resize")],
        bounds="one to three extensions of 0 to 16 bytes; new lengths 0, 5, 8, 13; with no room, 8 or 24 bytes of room; data from arguments or a buffer.",
    ),
    "P17": P(
        title="Buffers are filled exactly as told and never touch an asset",
        statement="Allocate, write and close succeed only on an account that signs, belongs to the program (or is new) and is not an initialized asset. Allocation appends the announced extension behind complete ones, once per kind; writing puts down exactly the given bytes at the start or the end of what is there and never past the announced length; the rest of the buffer is kept. The payer signs and pays the rent, and closing hands all lamports to the recipient.",
        text="every buffer or asset, content, wallet and balance, for each covered length",
        why="Lengths, boundaries and padding interact over several calls; tests write one extension in one order.",
        files=[PROC + "allocate.rs", PROC + "write.rs", PROC + "close.rs", PROC + "mod.rs"],
        mech=[("allocation", PROC + "allocate.rs: process_allocate"), ("writing", PROC + "write.rs: process_write"), ("closing", PROC + "close.rs: process_close")],
        bounds="announced length 13; 0, 4, 5 or 13 bytes present; writes of 5 to 14 bytes; one extension of 6 bytes before an allocation.",
        assumptions=["a buffer's header is empty (kept by these instructions)"],
    ),
    "P20": P(
        title="Extension lookup finds the right data wherever it sits",
        statement="Looking up an extension by kind in an asset's bytes returns the first one of that kind with exactly its stored data, at whatever position, skipping kinds it does not know and trailing room; it returns nothing when the kind is absent. Listing, containing, first and last agree with the stored sequence. The mutable and read-only views of each kind look for the same kind.",
        text="every sequence of extension headers and lengths, and trailing room",
        why="The walk follows boundaries stored in the data; tests use assets built by the library with one or two known kinds.",
        files=[TYPES + "state/asset.rs", TYPES + "extensions/mod.rs", TYPES + "extensions/proxy.rs"],
        mech=[("walkers", TYPES + "state/asset.rs: Asset::contains, get, get_mut, get_extension, get_extensions, first_extension, last_extension"),
              ("relative lookup", TYPES + "extensions/mod.rs: Extension::get")],
        bounds="up to three extensions, any kind code, 0 to 16 bytes of data each, with no room, partial room or a zero header behind them.",
        crate="types",
    ),
    "P21": P(
        title="Roles, codes and header fields decode to what was stored",
        statement="Each delegate role is one bit of its own: granting or taking one changes that bit only, a role counts as held exactly when its bit is set and a delegate is set, and a role list packs and unpacks without loss. Kinds, standards, states and markers convert to and from their byte codes without loss and unknown codes are never taken for a known one. Every field of the asset and extension headers sits at its documented offset.",
        text="every byte value, role set and header",
        why="Codes and offsets are the on-chain format; a swapped pair passes any test that writes and reads through the same code.",
        files=[TYPES + "state/delegate.rs", TYPES + "state/asset.rs", TYPES + "extensions/mod.rs"],
        mech=[("role bits", TYPES + "state/delegate.rs: DelegateRole::mask, Delegate::is_active, enable, disable, decode_delegate_roles"),
              ("codes", TYPES + "extensions/mod.rs: ExtensionType; " + TYPES + "state/mod.rs: Discriminator, Standard, State"),
              ("header layout", TYPES + "state/asset.rs: Asset")],
        bounds="none: every byte and every header is covered (loop-free, or loops over at most four roles).",
        crate="types",
        level="proof",
        level_note="complete for all byte values; loops over the fixed set of roles are fully unrolled",
    ),
    "P22": P(
        title="Royalty constraints mean what they say",
        statement="Parsing a stored constraint and evaluating it on the asset, authority and recipient passes exactly when the constraint holds: a key match when the named account's address is listed, an ownership test when its owning program is listed, a conjunction when all parts pass, a disjunction when one part passes, a negation when its part fails, and the empty constraint always. Each part reads only its own bytes, so nesting and position do not change the verdict.",
        text="every stored constraint of the covered shapes, every address and owner",
        why="The bytes are parsed recursively with sizes stored in the data; the tests build a few trees and check a few verdicts.",
        files=[TYPES + "constraints/mod.rs", TYPES + "constraints/and.rs", TYPES + "constraints/or.rs", TYPES + "constraints/not.rs", TYPES + "constraints/pubkey_match.rs", TYPES + "constraints/owned_by.rs"],
        mech=[("parser", TYPES + "constraints/mod.rs: Constraint::from_bytes"), ("evaluation", TYPES + "constraints/*.rs: assert")],
        bounds="leaves with 0 to 2 keys; conjunctions and disjunctions of up to 3 parts; nesting depth 3.",
        crate="types",
    ),
}

NOT_APPLICABLE = {}
