//! Runs one instruction of the program natively on the accounts given on standard input and prints what it did.
//! The runtime, the system program and foreign programs (scripted) are emulated here.
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::{deserialize, ProgramResult, MAX_PERMITTED_DATA_INCREASE, NON_DUP_MARKER, SUCCESS},
    instruction::Instruction,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_program,
};
use std::{
    collections::VecDeque,
    io::Read,
    panic::{catch_unwind, panic_any, AssertUnwindSafe},
    sync::Mutex,
};

struct Abort(String);
fn abort(why: &str) -> ! {
    panic_any(Abort(why.to_string()))
}

#[derive(Clone)]
struct Acct {
    key: Pubkey,
    signer: bool,
    writable: bool,
    exec: bool,
    lamports: u64,
    owner: Pubkey,
    data: Vec<u8>,
}

struct Effect {
    key: Pubkey,
    lamports: u64,
    owner: Pubkey,
    data: Vec<u8>,
}

struct State {
    clock: Clock,
    script: VecDeque<Vec<Effect>>,
    log: Vec<String>,
    execs: Vec<Pubkey>,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    f(STATE.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap())
}

fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for c in b {
        s += &format!("{c:02x}");
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let s = &s[1..];
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn key(s: &str) -> Pubkey {
    Pubkey::new_from_array(unhex(s).try_into().unwrap())
}

/// The input buffer as the loader lays it out.
fn serialize(pid: &Pubkey, accts: &[Acct], order: &[usize], data: &[u8]) -> Vec<u64> {
    let mut b: Vec<u8> = vec![];
    b.extend((order.len() as u64).to_le_bytes());
    for (i, &o) in order.iter().enumerate() {
        if let Some(j) = order[..i].iter().position(|&p| p == o) {
            b.extend((j as u64).to_le_bytes());
            continue;
        }
        let a = &accts[o];
        b.extend([NON_DUP_MARKER, a.signer as u8, a.writable as u8, a.exec as u8, 0, 0, 0, 0]);
        b.extend(a.key.to_bytes());
        b.extend(a.owner.to_bytes());
        b.extend(a.lamports.to_le_bytes());
        b.extend((a.data.len() as u64).to_le_bytes());
        b.extend(&a.data);
        b.extend(vec![0; MAX_PERMITTED_DATA_INCREASE]);
        while b.len() % 8 != 0 {
            b.push(0);
        }
        b.extend(0u64.to_le_bytes());
    }
    b.extend((data.len() as u64).to_le_bytes());
    b.extend(data);
    b.extend(pid.to_bytes());
    while b.len() % 8 != 0 {
        b.push(0);
    }
    // the buffer the program works in is aligned
    b.chunks(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).collect()
}

/// Runs the program on a fresh buffer; the accounts are updated from it.
fn run(pid: &Pubkey, accts: &mut [Acct], order: &[usize], data: &[u8]) -> ProgramResult {
    let buf: &'static mut [u64] = Box::leak(serialize(pid, accts, order, data).into_boxed_slice());
    let (pid, infos, d) = unsafe { deserialize(buf.as_mut_ptr() as *mut u8) };
    let r = dlp::process_instruction(pid, &infos, d);
    for (info, &o) in infos.iter().zip(order) {
        let a = &mut accts[o];
        unsafe {
            a.lamports = **info.lamports.as_ptr();
            a.data = (*info.data.as_ptr()).to_vec();
        }
        a.owner = unsafe { std::ptr::read_volatile(info.owner) };
    }
    r
}

fn get_lam(i: &AccountInfo) -> u64 {
    unsafe { **i.lamports.as_ptr() }
}
fn set_lam(i: &AccountInfo, v: u64) {
    unsafe { **i.lamports.as_ptr() = v }
}
fn get_data(i: &AccountInfo) -> Vec<u8> {
    unsafe { (*i.data.as_ptr()).to_vec() }
}
fn get_owner(i: &AccountInfo) -> Pubkey {
    unsafe { std::ptr::read_volatile(i.owner) }
}
fn set_data(i: &AccountInfo, v: &[u8]) {
    unsafe {
        if v.len() > i.original_data_len() + MAX_PERMITTED_DATA_INCREASE {
            abort("growth limit");
        }
        let d = &mut *i.data.as_ptr();
        let p = d.as_mut_ptr();
        *(p.offset(-8) as *mut u64) = v.len() as u64;
        *d = std::slice::from_raw_parts_mut(p, v.len());
        d.copy_from_slice(v);
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Clock) = st(|s| s.clock.clone()) };
        SUCCESS
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        SUCCESS
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let signers: Vec<Pubkey> = seeds
            .iter()
            .map(|s| Pubkey::create_program_address(s, &dlp::ID).unwrap_or_else(|_| abort("invalid seeds")))
            .collect();
        let mut line = format!("cpi {} {}", hex(&ix.program_id.to_bytes()), hex(&ix.data));
        for m in &ix.accounts {
            line += &format!(" {} {} {}", hex(&m.pubkey.to_bytes()), m.is_signer as u8, m.is_writable as u8);
        }
        st(|s| s.log.push(line));
        let find = |k: &Pubkey| infos.iter().find(|i| i.key == k).unwrap_or_else(|| abort("missing account"));
        for m in &ix.accounts {
            let i = find(&m.pubkey);
            if m.is_signer && !i.is_signer && !signers.contains(&m.pubkey) {
                abort("signer privilege escalated");
            }
            if m.is_writable && !i.is_writable {
                abort("writable privilege escalated");
            }
        }
        let signs = |k: &Pubkey| ix.accounts.iter().any(|m| m.pubkey == *k && m.is_signer);
        let writes = |k: &Pubkey| ix.accounts.iter().any(|m| m.pubkey == *k && m.is_writable);
        if ix.program_id == system_program::id() {
            system(ix, &find, &signs, &writes);
        } else if ix.program_id == dlp::ID {
            if !infos.iter().any(|i| *i.key == dlp::ID) {
                abort("program account missing");
            }
            let mut accts: Vec<Acct> = vec![];
            let mut order = vec![];
            for m in &ix.accounts {
                let o = accts.iter().position(|a| a.key == m.pubkey).unwrap_or_else(|| {
                    let i = find(&m.pubkey);
                    accts.push(Acct {
                        key: m.pubkey,
                        signer: signs(&m.pubkey),
                        writable: writes(&m.pubkey),
                        exec: i.executable,
                        lamports: get_lam(i),
                        owner: get_owner(i),
                        data: get_data(i),
                    });
                    accts.len() - 1
                });
                order.push(o);
            }
            if run(&dlp::ID, &mut accts, &order, &ix.data).is_err() {
                abort("inner instruction failed");
            }
            for a in &accts {
                let i = find(&a.key);
                set_lam(i, a.lamports);
                set_data(i, &a.data);
                i.assign(&a.owner);
            }
        } else {
            if !st(|s| s.execs.contains(&ix.program_id)) {
                abort("not executable");
            }
            let effs = st(|s| s.script.pop_front()).unwrap_or_else(|| abort("unscripted invocation"));
            for e in effs {
                let i = find(&e.key);
                if !writes(&e.key) {
                    abort("script changes a read-only account");
                }
                set_lam(i, e.lamports);
                set_data(i, &e.data);
                i.assign(&e.owner);
            }
        }
        Ok(())
    }
}

fn system<'a, 'b: 'a>(ix: &Instruction, find: &dyn Fn(&Pubkey) -> &'a AccountInfo<'b>, signs: &dyn Fn(&Pubkey) -> bool, writes: &dyn Fn(&Pubkey) -> bool) {
    let u64_at = |o: usize| u64::from_le_bytes(ix.data.get(o..o + 8).unwrap_or_else(|| abort("bad data")).try_into().unwrap());
    let key_at = |o: usize| Pubkey::new_from_array(ix.data.get(o..o + 32).unwrap_or_else(|| abort("bad data")).try_into().unwrap());
    let acc = |n: usize| ix.accounts.get(n).unwrap_or_else(|| abort("missing account")).pubkey;
    let need = |c: bool, w: &str| {
        if !c {
            abort(w)
        }
    };
    let transfer = |f: Pubkey, t: Pubkey, n: u64| {
        need(signs(&f), "from must sign");
        need(get_data(find(&f)).is_empty(), "from must not carry data");
        need(get_lam(find(&f)) >= n, "insufficient lamports");
        if n > 0 {
            need(get_owner(find(&f)) == system_program::id(), "external account lamport spend");
            need(writes(&f) && writes(&t), "read-only lamport change");
            set_lam(find(&f), get_lam(find(&f)) - n);
            let v = get_lam(find(&t)).checked_add(n).unwrap_or_else(|| abort("arithmetic overflow"));
            set_lam(find(&t), v);
        }
    };
    let allocate = |k: Pubkey, n: u64| {
        need(signs(&k), "account must sign");
        need(get_data(find(&k)).is_empty(), "account already in use");
        need(get_owner(find(&k)) == system_program::id(), "account already in use");
        need(n <= MAX_PERMITTED_DATA_INCREASE as u64, "growth limit");
        if n > 0 {
            need(writes(&k), "read-only data change");
            set_data(find(&k), &vec![0; n as usize]);
        }
    };
    let assign = |k: Pubkey, o: Pubkey| {
        if get_owner(find(&k)) == o {
            return;
        }
        need(signs(&k), "account must sign");
        need(get_owner(find(&k)) == system_program::id(), "modified program id");
        need(writes(&k), "modified program id");
        find(&k).assign(&o);
    };
    let tag = u32::from_le_bytes(ix.data.get(..4).unwrap_or_else(|| abort("bad data")).try_into().unwrap());
    match tag {
        0 => {
            need(get_lam(find(&acc(1))) == 0, "account already in use");
            allocate(acc(1), u64_at(12));
            assign(acc(1), key_at(20));
            transfer(acc(0), acc(1), u64_at(4));
        }
        1 => assign(acc(0), key_at(4)),
        2 => transfer(acc(0), acc(1), u64_at(4)),
        8 => allocate(acc(0), u64_at(4)),
        _ => abort("other system instruction"),
    }
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut program = dlp::ID;
    let (mut accts, mut order, mut data, mut script, mut clock) = (vec![], vec![], vec![], VecDeque::new(), Clock::default());
    for l in s.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let flag = |i: usize| w[i] == "1";
        match w.first().copied() {
            Some("clock") => clock.slot = w[1].parse().unwrap(),
            Some("program") => program = key(w[1]),
            Some("data") => data = unhex(w[1]),
            Some("order") => order = w[1..].iter().map(|x| x.parse::<usize>().unwrap()).collect(),
            Some("acct") => accts.push(Acct {
                key: key(w[1]),
                signer: flag(2),
                writable: flag(3),
                exec: flag(4),
                lamports: w[5].parse().unwrap(),
                owner: key(w[6]),
                data: unhex(w[7]),
            }),
            Some("call") => script.push_back(vec![]),
            Some("effect") => script.back_mut().unwrap().push(Effect {
                key: key(w[1]),
                lamports: w[2].parse().unwrap(),
                owner: key(w[3]),
                data: unhex(w[4]),
            }),
            _ => {}
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let execs = accts.iter().filter(|a| a.exec).map(|a| a.key).collect();
    *STATE.lock().unwrap() = Some(State { clock, script, log: vec![], execs });
    set_syscall_stubs(Box::new(Stubs));
    let r = catch_unwind(AssertUnwindSafe(|| run(&program, &mut accts, &order, &data)));
    match r {
        Ok(Ok(())) => println!("outcome ok"),
        Ok(Err(e)) => println!("outcome err {e:?}"),
        Err(p) => match p.downcast_ref::<Abort>() {
            Some(a) => println!("outcome abort {}", a.0),
            None => println!("outcome panic {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")),
        },
    }
    st(|s| {
        for l in &s.log {
            println!("{l}");
        }
    });
    for a in &accts {
        println!("acct {} {} {} {}", hex(&a.key.to_bytes()), a.lamports, hex(&a.owner.to_bytes()), hex(&a.data));
    }
}
