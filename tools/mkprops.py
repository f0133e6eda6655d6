#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept as a script so the texts are easy to edit."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
PR='src/processor/'; LD=PR+'utils/loaders.rs'; PD=PR+'utils/pda.rs'
p('C01','Only an admitted validator can commit state',
 "A commit instruction (state inline or taken from a buffer account) that succeeds and changes anything was signed by a validator that holds an initialised fee vault at that validator's canonical address, and, when a whitelist config exists for the account's recorded owner program, that validator is a member of it. The account is owned by the delegation program and its delegation record and metadata are the program-owned ones at its own canonical addresses.",
 ['inputs'],"every account list (any keys, aliasing, owners, flags, balances and data of any length), every instruction payload",
 "Tests run one well-formed commit per file plus one whitelist rejection; they never drive a wrong vault, a foreign record, a missing signature or aliased accounts.",
 [PR+'commit_state.rs',PR+'commit_state_from_buffer.rs',LD],
 [('account checks at the head of the internal commit routine',PR+'commit_state.rs'),('program-config membership test',PR+'commit_state.rs')],
 ['result and all account changes of the two commit instructions'])
p('C02','Commits are serialised per account and never go back in time',
 "A commit for a slot lower than the account's last finalized slot succeeds without changing anything; a commit that is applied needs no other commit to be pending for the account. Over any history of instructions, the last finalized slot of a delegated account never decreases until it is undelegated, and every pending commit carries a slot at least as large as it.",
 ['inputs','histories'],"all slots and payloads; all sequences of the program's instructions (inductive over each instruction)",
 "Slots are 64-bit inputs and the guarantee spans instruction sequences; tests use one slot (100) and one commit-finalize sequence.",
 [PR+'commit_state.rs',PR+'finalize.rs',PR+'delegate.rs','src/state/delegation_metadata.rs'],
 [('slot comparison before any write',PR+'commit_state.rs'),('uninitialised-PDA checks on commit state and record',LD)],
 ['delegation metadata and commit record data before/after every instruction'],
 [('last_update_external_slot','last finalized slot','src/state/delegation_metadata.rs'),('CommitRecord.slot','slot of the pending commit','src/state/commit_record.rs')])
p('C03','Once undelegation is allowed no further commit is accepted',
 "When an account's metadata says it may be undelegated, every later up-to-date commit for it fails. The permission is turned on only by an accepted commit that asked for it; no other instruction turns it on or off while the account stays delegated, and a fresh delegation starts without it.",
 ['inputs','histories'],"all payloads and account states; all instruction sequences",
 "Tests never send a second commit after one that allowed undelegation, nor a commit with the flag off followed by undelegation on chain.",
 [PR+'commit_state.rs',PR+'undelegate.rs',PR+'finalize.rs',PR+'delegate.rs'],
 [('is_undelegatable test and update',PR+'commit_state.rs')],['metadata flag before/after every instruction, commit result'])
p('C04','An accepted commit stores exactly what was submitted',
 "An applied commit leaves, at the account's canonical addresses and owned by the delegation program, a pending state whose bytes are exactly the submitted ones and a commit record naming exactly the signing validator, the account, the submitted slot and the submitted lamports, with the submitted undelegation permission in the metadata and every other metadata field kept. The delegated account and its delegation record are untouched; the buffer variant behaves the same with the buffer account's bytes, and leaves the buffer untouched.",
 ['inputs'],"state bytes of any length and content, all slots and lamports, both variants",
 "Tests commit 10 fixed bytes once per variant and never check most record fields or the lamports field.",
 [PR+'commit_state.rs',PR+'commit_state_from_buffer.rs','src/state/commit_record.rs','src/args/commit_state.rs'],
 [('commit record initialisation and state copy',PR+'commit_state.rs')],['data of commit state, commit record, metadata, record, delegated account'])
p('C05','A commit that raises the balance is fully collateralised',
 "A commit is applied only if the delegated account holds at least the recorded lamports; if it declares more lamports than recorded, the pending state ends up holding what its address held plus the exact difference, topped up to its own rent-exempt minimum where that is more; the signing validator pays that and the commit record's rent and nothing else changes balance. Over any history, while a commit is pending, the pending state holds at least the declared increase and the delegated account at least the recorded lamports.",
 ['inputs','histories'],"all balances and declared lamports; all instruction sequences",
 "The balance arithmetic is over 64-bit balances; tests use a handful of hand-picked amounts.",
 [PR+'commit_state.rs',PD,PR+'finalize.rs'],
 [('collateral transfer',PR+'commit_state.rs'),('create_pda top-up rule',PD)],['lamports of validator, pending state, delegated account'])
p('C06','Only the committing validator can finalize; nothing pending is a no-op',
 "A finalize that changes anything was signed by the validator named in the commit record, which holds an initialised fee vault at its canonical address, and the record names the very account being finalized; all per-account state comes from that account's own canonical, program-owned addresses. If the account has no pending commit (both pending accounts are uninitialised), an otherwise well-formed finalize succeeds and changes nothing.",
 ['inputs'],"every account list and contents, including aliased accounts",
 "Tests finalize once with the right validator; nobody tries another validator, another account's record, or a half-initialised pair.",
 [PR+'finalize.rs',LD],[('record/identity checks',PR+'finalize.rs')],['result and changes of finalize'])
p('C07','Finalize applies exactly the committed state',
 "After an applied finalize the delegated account's data equals the committed bytes (length included), its last finalized slot equals the committed slot, and the recorded lamports equal the account's balance as settled (balance before, less the recorded, plus the committed lamports). Both pending accounts are closed (no data, no lamports, back to the system program) and the account's owner, delegation authority, recorded owner, seeds, rent payer and undelegation permission are unchanged.",
 ['inputs'],"old and new data of any length and content; all slots, all balances",
 "Tests finalize one 11-byte state over an empty account and compare a few fields.",
 [PR+'finalize.rs',PD],[('realloc and copy',PR+'finalize.rs'),('close_pda',PD)],['all accounts of finalize'])
p('C08','Finalize settles lamports exactly',
 "After an applied finalize the delegated account holds the committed lamports plus whatever it held above its recorded lamports. A decrease goes entirely to the committing validator's fee vault, an increase comes entirely from the pending state, and all that remains in the two pending accounts returns to that validator; no other balance changes.",
 ['inputs'],"all recorded, committed and actual balances",
 "Exact for all 64-bit balance triples; tests try eight amounts.",
 [PR+'finalize.rs',PD],[('settle_lamports_balance',PR+'finalize.rs'),('close_pda',PD)],['lamports of every account of finalize'])
p('C09','Undelegation happens only when allowed',
 "An undelegation that succeeds was signed by a validator holding an initialised fee vault at its canonical address, for an account whose metadata permits undelegation and which has no pending commit. The owner program and the rent recipient passed in are those recorded at delegation, and every other per-account or fee account is the canonical, program-owned one.",
 ['inputs'],"every account list and contents, including aliased accounts",
 "Tests only cover one refusal (not permitted); wrong owner, wrong rent payer, pending commits, foreign vaults are never tried.",
 [PR+'undelegate.rs',LD],[('checks at the head of process_undelegate',PR+'undelegate.rs')],['result of undelegate'])
p('C10','Undelegation gives the account back intact',
 "After a successful undelegation the account holds exactly the bytes it held before and is no longer delegated (its delegation record and metadata are closed): an account without data is handed to its recorded owner with its balance unchanged; for an account with data the only foreign program invoked is the recorded owner, once, with the external-undelegate tag and the recorded seeds, after the account was emptied and with a faithful copy of its bytes in the canonical signing buffer. The undelegation fails unless the owner program restored exactly those bytes and took exactly the rent-exempt minimum for them from the validator; the validator never ends up with fewer lamports, and account and validator together keep their total.",
 ['inputs'],"account data of any length and content, all balances, every behaviour of the foreign owner program allowed by the runtime",
 "The owner program is arbitrary code; tests use a single well-behaved one and one data value.",
 [PR+'undelegate.rs',PD],[('post-CPI checks',PR+'undelegate.rs')],['all accounts of undelegate, arguments of the foreign call'])
p('C11','Delegation rent is split by the published percentages',
 "On undelegation each of the two delegation accounts is closed and its balance divided exactly: 10% rounded down is the total fee, of which 10% rounded down goes to the protocol vault and the rest to the validator's vault, and everything else goes to the recorded rent payer. The closed accounts keep nothing and are returned to the system program.",
 ['inputs'],"all balances of the delegation accounts, all aliasing of the recipients",
 "Rounding for every 64-bit balance; tests check one balance, partially.",
 [PD,PR+'undelegate.rs','src/consts.rs'],[('close_pda_with_fees',PD)],['lamports of vaults, rent payer, delegation accounts'])
p('C12','Only a consenting, provably owned account can be delegated',
 "A delegation succeeds only if both payer and account signed, the account was already handed to the delegation program, it is not currently delegated (record and metadata at its canonical addresses are uninitialised), and the buffer is the owner program's canonical buffer for it. Unless the account's address is an ordinary curve key, it must be the address derived from the supplied seeds under the claimed owner program (the delegation program itself when the claimed owner is the system program).",
 ['inputs'],"every account list, every seed list and payload",
 "Tests delegate well-formed accounts only; no wrong seeds, missing signature or double delegation.",
 [PR+'delegate.rs',LD],[('seed validation and account checks',PR+'delegate.rs')],['result of delegate'])
p('C13','Delegation records exactly what was delegated',
 "A successful delegation creates, at the account's canonical addresses and owned by the delegation program, a record with the claimed owner program, the requested validator authority (none = default key), the current slot, the account's lamports and the requested commit frequency, and metadata with the supplied seeds, the payer as rent payer, slot 0 and undelegation off. The account's balance is unchanged and its data equals the buffer's data (or is unchanged when the buffer is empty); only the payer is charged.",
 ['inputs'],"all payloads (seed lists of any length), buffer data of any length, all balances",
 "Tests compare a few fields for one payload.",
 [PR+'delegate.rs',PD,'src/state/delegation_record.rs','src/state/delegation_metadata.rs'],[('record and metadata initialisation',PR+'delegate.rs')],['all accounts of delegate'])
p('C14','Lamports are conserved and balance arithmetic never wraps',
 "No successful instruction creates or destroys lamports: over all accounts, the balance changes it makes sum to zero (for undelegation, given that the foreign program itself conserves lamports). No successful instruction depends on an integer overflow or underflow.",
 ['inputs'],"every instruction, every account list (with aliasing), payload and balance",
 "Aliased accounts and extreme balances are never tested; the deployed build does not trap overflow.",
 [PR,PD],[('checked arithmetic, paired debit/credit',PR)],['sum of balance changes of each instruction'])
p('C15','A validator can claim only its own fees, less the protocol share',
 "A fee claim that succeeds is signed by the validator whose canonical fee vault is debited; the vault is debited by exactly the requested amount (or, if none was given, everything above the rent-exempt minimum), 10% of it rounded down going to the protocol vault and the rest to that validator, and the vault keeps at least the rent-exempt minimum for its size. A claim exceeding what the vault holds above that minimum fails.",
 ['inputs'],"all amounts and balances, every account list",
 "One amount is tested; the boundary, over-claiming, tiny vaults and foreign vaults are not.",
 [PR+'validator_claim_fees.rs','src/consts.rs',LD],[('amount check and split',PR+'validator_claim_fees.rs')],['lamports of the three accounts'])
p('C16','Only the protocol admin can take protocol fees, never the rent',
 "Lamports leave the protocol fee vault only through a claim signed by the delegation program's current upgrade authority, which receives all of them, and leaves the vault with exactly the rent-exempt minimum for its size. The claim fails if the vault holds less than that minimum, and no other instruction lowers the vault's balance.",
 ['inputs','histories'],"all balances, account lists and loader account contents; every instruction",
 "The test build replaces the upgrade-authority lookup by a fixed key; other signers and balances are untested.",
 [PR+'protocol_claim_fees.rs',LD],[('upgrade authority lookup',LD),('amount computation',PR+'protocol_claim_fees.rs')],['lamports of vault and admin'])
p('C17','Only the protocol admin admits or removes validators',
 "A validator's fee vault comes into existence, or is closed, only by an instruction signed by the delegation program's current upgrade authority and a payer; creation puts an 8-byte program-owned account at that validator's canonical address which was uninitialised, closing returns the vault's whole balance to that validator identity. No other instruction creates or closes a validator fee vault.",
 ['inputs','histories'],"all account lists and loader account contents; every instruction",
 "Tests use one correct admin; wrong admins, wrong vault/identity pairs and re-initialisation are untested.",
 [PR+'init_validator_fees_vault.rs',PR+'close_validator_fees_vault.rs',LD],[('admin check',PR+'init_validator_fees_vault.rs')],['existence and ownership of vault PDAs'])
p('C18','Program whitelists change only by right, and exactly as asked',
 "A program's validator whitelist is changed only by an instruction signed by the delegation program's upgrade authority or that program's own upgrade authority, at that program's canonical address. Afterwards the stored set is exactly the previous one (empty if there was none) with the given validator inserted or removed, and it can be read back as such.",
 ['inputs','histories'],"whitelists of any size and content, insert and remove, all authorities; every instruction",
 "Tests add or remove one validator on an empty or singleton set.",
 [PR+'whitelist_validator_for_program.rs','src/state/program_config.rs',LD],[('validate_authority',PR+'whitelist_validator_for_program.rs'),('resize_pda',PD)],['config account data'])
p('C19','Escrow balances: anyone can add, only the owner can take',
 "A top-up moves exactly the requested amount (plus, while the escrow belongs to the system program, what it lacks of the rent-exempt minimum) from the signing payer to the canonical escrow of the given owner and index. Closing succeeds only when signed by the escrow's owner and only while the escrow belongs to the system program, i.e. is not delegated, and pays its whole balance to that owner and nobody else.",
 ['inputs'],"all amounts, indices, balances and account lists",
 "Tests use two owners, two indices and one amount each.",
 [PR+'top_up_ephemeral_balance.rs',PR+'close_ephemeral_balance.rs','src/pda.rs'],[('escrow seeds',"src/pda.rs")],['lamports of payer and escrow'])
p('C20','An escrow is delegated only with its owner\'s consent',
 "Delegating an escrow succeeds only if both payer and escrow owner signed and the account is that owner's canonical escrow for the given index. The result is a regular delegation of exactly that escrow: program-owned, recorded owner the system program, recorded seeds those of the escrow whatever seeds were supplied, rent payer the payer, with its lamports recorded.",
 ['inputs'],"all payloads (including hostile seeds), indices and account lists",
 "Tests delegate two escrows and never supply foreign seeds or a missing owner signature.",
 [PR+'delegate_ephemeral_balance.rs',PR+'delegate.rs'],[('seed override and signed CPI',PR+'delegate_ephemeral_balance.rs')],['escrow, record and metadata after the instruction'])
p('C21','Stored records are unambiguous and round-trip',
 "For each of the four account record types, what is written can be read back with every field equal and at the published size, for all field values. Bytes written as one type are never accepted as another, and anything too short, of the wrong size, or with a foreign type tag is rejected.",
 ['inputs'],"all field values, all byte strings of any length",
 "One round-trip of one type for one value is tested.",
 ['src/state/commit_record.rs','src/state/delegation_record.rs','src/state/delegation_metadata.rs','src/state/program_config.rs','src/state/utils/'],
 [('discriminators','src/state/utils/discriminator.rs'),('to/from bytes macros','src/state/utils/')],['encoders and decoders of the state types'])
p('C22','Client builders and the program agree',
 "For all arguments, each instruction builder produces an instruction for this program whose tag the dispatcher routes to the operation of that name, whose payload decodes to exactly the given arguments, and whose accounts are, in the order that operation requires, the canonical addresses for the given keys, signing exactly where the operation needs a signature, writable wherever it changes the account, and not writable where it insists on that. Instructions for another program id, shorter than a tag, or whose tag's first byte is unassigned are rejected.",
 ['inputs'],"all builder arguments, all payload bytes, all program ids",
 "Each builder is exercised with one argument set on the happy path; unknown tags never.",
 ['src/instruction_builder/','src/lib.rs','src/discriminator.rs','src/args/','src/pda.rs'],
 [('dispatch','src/lib.rs'),('tag encoding','src/discriminator.rs')],['builder results, dispatch of the entry point'])
p('C23','Each instruction touches only its own accounts',
 "A successful instruction changes lamports, data or owner only of the accounts its documentation lists as affected, and only of this operation's own delegated account, pending, fee, config or escrow accounts: never another account's delegation data, another validator's vault, or another program's whitelist. In particular a delegated account's data changes only by delegation, finalization or undelegation, and it leaves the program's ownership only by undelegation.",
 ['inputs','histories'],"every instruction, every account list including aliasing",
 "Tests look at the accounts expected to change, never at the rest.",
 [PR],[('account checks',LD)],['full before/after account state of each instruction'])
p('C24','Delegation life cycle stays consistent',
 "Over any history: an account's delegation record and metadata exist together or not at all, its pending state and commit record exist together or not at all, a commit is pending only while the account is delegated, and a commit record names its own account. Delegation requires none of the four to be left over from an earlier session; undelegation leaves none.",
 ['histories'],"all sequences of instructions (inductive over each), all inputs",
 "An invariant over histories; tests replay three fixed sequences.",
 [PR+'delegate.rs',PR+'commit_state.rs',PR+'finalize.rs',PR+'undelegate.rs'],[('uninitialised checks',LD)],['existence of the four per-account PDAs'])
p('C25','Account addresses are canonical and role-separated',
 "Every address helper yields the program-derived address of its documented role for the given key (and index), under the delegation program or, for the delegation buffer, the owner program. Addresses of different roles, or of different keys, owners or indices in the same role, never coincide (up to hash collisions), and an instruction that succeeds was given exactly that address for every per-account, fee, config and system account it acts on.",
 ['inputs'],"all keys and indices",
 "Tests use the helpers on both sides, so a consistent but wrong derivation goes unnoticed.",
 ['src/pda.rs',LD],[('seed macros','src/pda.rs')],['address helpers; addresses accepted by each instruction'])
p('C26','Legitimate operations are never blocked',
 "Given well-formed canonical accounts, sufficient funds and a state reached through the program, a commit from an admitted validator, the finalize of a pending commit by its validator, the undelegation of a data-less account that permits it, and fee claims within the available balance succeed, and the runtime accepts the changes made (its separate rule about accounts left below rent exemption aside). In particular no combination of slots, lamports or state lengths (within the runtime's growth limit) leaves a pending commit that its validator cannot finalize.",
 ['inputs','histories'],"all slots, balances, state lengths and contents in reachable states",
 "Success is only tested for a few values; a stuck account needs an unlucky combination.",
 [PR+'commit_state.rs',PR+'finalize.rs',PR+'undelegate.rs',PR+'validator_claim_fees.rs'],[('skip rules, settlement, borrow discipline',PR+'finalize.rs')],['result of each instruction'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
