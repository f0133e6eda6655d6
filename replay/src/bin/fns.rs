//! Calls one library function of the program (address helper, instruction builder, record codec) on borsh-encoded
//! arguments and prints what it returns.
use borsh::BorshDeserialize;
use dlp::{args::*, instruction_builder as ib, pda, state::*};
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::{io::Read, panic::catch_unwind};

fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for c in b {
        s += &format!("{c:02x}");
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let s = &s[1..];
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn d<T: BorshDeserialize>(b: &[u8]) -> T {
    T::try_from_slice(b).unwrap()
}
fn k(p: Pubkey) -> String {
    hex(&p.to_bytes())
}
fn ix(i: Instruction) -> String {
    let mut s = format!("{} {}", k(i.program_id), hex(&i.data));
    for m in i.accounts {
        s += &format!(" {} {} {}", k(m.pubkey), m.is_signer as u8, m.is_writable as u8);
    }
    s
}
fn rec(r: &DelegationRecord) -> Vec<u8> {
    [&r.authority.to_bytes()[..], &r.owner.to_bytes(), &r.delegation_slot.to_le_bytes(), &r.lamports.to_le_bytes(), &r.commit_frequency_ms.to_le_bytes()].concat()
}
fn crec(r: &CommitRecord) -> Vec<u8> {
    [&r.identity.to_bytes()[..], &r.account.to_bytes(), &r.slot.to_le_bytes(), &r.lamports.to_le_bytes()].concat()
}
fn show(v: Option<Vec<u8>>) -> String {
    v.map(|b| hex(&b)).unwrap_or("none".into())
}
/// account data is aligned
fn aligned(b: &[u8]) -> &'static mut [u8] {
    let w: &'static mut [u64] = Box::leak(vec![0u64; b.len() / 8 + 2].into_boxed_slice());
    let p = unsafe { std::slice::from_raw_parts_mut(w.as_mut_ptr() as *mut u8, b.len()) };
    p.copy_from_slice(b);
    p
}
fn decode(ty: &str, b: &[u8]) -> Option<Vec<u8>> {
    let a = aligned(b);
    match ty {
        "DelegationRecord" => DelegationRecord::try_from_bytes_with_discriminator(a).ok().map(rec),
        "CommitRecord" => CommitRecord::try_from_bytes_with_discriminator(a).ok().map(crec),
        "DelegationRecord_mut" => DelegationRecord::try_from_bytes_with_discriminator_mut(a).ok().map(|r| rec(r)),
        "CommitRecord_mut" => CommitRecord::try_from_bytes_with_discriminator_mut(a).ok().map(|r| crec(r)),
        "DelegationMetadata" => DelegationMetadata::try_from_bytes_with_discriminator(a).ok().map(|m| borsh::to_vec(&m).unwrap()),
        "ProgramConfig" => ProgramConfig::try_from_bytes_with_discriminator(a).ok().map(|m| borsh::to_vec(&m).unwrap()),
        _ => panic!("type"),
    }
}
fn roundtrip(ty: &str, v: &[u8], given: &[u8]) -> String {
    let n = given.len();
    let buf = aligned(given);
    let r = match ty {
        "DelegationRecord" => {
            let (authority, owner, delegation_slot, lamports, commit_frequency_ms) = d(v);
            DelegationRecord { authority, owner, delegation_slot, lamports, commit_frequency_ms }.to_bytes_with_discriminator(buf).map(|_| 0)
        }
        "CommitRecord" => {
            let (identity, account, slot, lamports) = d(v);
            CommitRecord { identity, account, slot, lamports }.to_bytes_with_discriminator(buf).map(|_| 0)
        }
        "DelegationMetadata" => {
            let mut w = &mut *buf;
            d::<DelegationMetadata>(v).to_bytes_with_discriminator(&mut w).map(|_| w.len())
        }
        "ProgramConfig" => {
            let mut w = &mut *buf;
            d::<ProgramConfig>(v).to_bytes_with_discriminator(&mut w).map(|_| w.len())
        }
        _ => panic!("type"),
    };
    match r {
        Err(_) => "none".into(),
        Ok(rest) => {
            let out = &buf[..n - rest];
            format!("{} {}", hex(out), show(decode(ty, out)))
        }
    }
}

fn call(f: &str, a: &[Vec<u8>]) -> String {
    match f {
        "pda.delegation_record_pda_from_delegated_account" => k(pda::delegation_record_pda_from_delegated_account(&d(&a[0]))),
        "pda.delegation_metadata_pda_from_delegated_account" => k(pda::delegation_metadata_pda_from_delegated_account(&d(&a[0]))),
        "pda.commit_state_pda_from_delegated_account" => k(pda::commit_state_pda_from_delegated_account(&d(&a[0]))),
        "pda.commit_record_pda_from_delegated_account" => k(pda::commit_record_pda_from_delegated_account(&d(&a[0]))),
        "pda.delegate_buffer_pda_from_delegated_account_and_owner_program" => {
            k(pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&d(&a[0]), &d(&a[1])))
        }
        "pda.undelegate_buffer_pda_from_delegated_account" => k(pda::undelegate_buffer_pda_from_delegated_account(&d(&a[0]))),
        "pda.fees_vault_pda" => k(pda::fees_vault_pda()),
        "pda.validator_fees_vault_pda_from_validator" => k(pda::validator_fees_vault_pda_from_validator(&d(&a[0]))),
        "pda.program_config_from_program_id" => k(pda::program_config_from_program_id(&d(&a[0]))),
        "pda.ephemeral_balance_pda_from_payer" => k(pda::ephemeral_balance_pda_from_payer(&d(&a[0]), d(&a[1]))),
        "build.close_ephemeral_balance" => ix(ib::close_ephemeral_balance(d(&a[0]), d(&a[1]))),
        "build.close_validator_fees_vault" => ix(ib::close_validator_fees_vault(d(&a[0]), d(&a[1]), d(&a[2]))),
        "build.commit_state" => ix(ib::commit_state(d(&a[0]), d(&a[1]), d(&a[2]), d::<CommitStateArgs>(&a[3]))),
        "build.commit_state_from_buffer" => {
            ix(ib::commit_state_from_buffer(d(&a[0]), d(&a[1]), d(&a[2]), d(&a[3]), d::<CommitStateFromBufferArgs>(&a[4])))
        }
        "build.delegate" => ix(ib::delegate(d(&a[0]), d(&a[1]), d(&a[2]), d::<DelegateArgs>(&a[3]))),
        "build.delegate_ephemeral_balance" => ix(ib::delegate_ephemeral_balance(d(&a[0]), d(&a[1]), d::<DelegateEphemeralBalanceArgs>(&a[2]))),
        "build.finalize" => ix(ib::finalize(d(&a[0]), d(&a[1]))),
        "build.init_protocol_fees_vault" => ix(ib::init_protocol_fees_vault(d(&a[0]))),
        "build.init_validator_fees_vault" => ix(ib::init_validator_fees_vault(d(&a[0]), d(&a[1]), d(&a[2]))),
        "build.protocol_claim_fees" => ix(ib::protocol_claim_fees(d(&a[0]))),
        "build.top_up_ephemeral_balance" => ix(ib::top_up_ephemeral_balance(d(&a[0]), d(&a[1]), d(&a[2]), d(&a[3]))),
        "build.undelegate" => ix(ib::undelegate(d(&a[0]), d(&a[1]), d(&a[2]), d(&a[3]))),
        "build.validator_claim_fees" => ix(ib::validator_claim_fees(d(&a[0]), d(&a[1]))),
        "build.whitelist_validator_for_program" => ix(ib::whitelist_validator_for_program(d(&a[0]), d(&a[1]), d(&a[2]), d(&a[3]))),
        _ => match f.split_once('.') {
            Some(("decode", t)) => show(decode(t, &a[0])),
            Some(("roundtrip", t)) => roundtrip(t, &a[0], &a[1]),
            _ => "unknown".into(),
        },
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    for l in s.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if let Some(f) = w.first() {
            let f = f.to_string();
            let a: Vec<Vec<u8>> = w[1..].iter().map(|x| unhex(x)).collect();
            println!("{}", catch_unwind(move || call(&f, &a)).unwrap_or("panic".into()));
        }
    }
}
