"""What the proofs rest on: assumptions, and the functions verified versus trusted in a run."""

BASE = [
    'rustc (nightly front end, MIR built from /repo by the real compiler): the extracted MIR means what the source means, and the deployed SBF code behaves like it',
    'the verification-condition generator /verif/vcgen (MIR semantics, splitting into paths, memory model)',
    'Z3 (answers "unsat")',
]

ASSUMPTIONS = [
    'Solana runtime: an instruction that fails changes nothing; accounts with equal keys are one account; account keys, signer, writable and executable flags and '
    'data are as the runtime passes them; a signature of a program-derived address needs its program; executable accounts and the system program do not sign',
    'Solana runtime, cross-program invocation: privileges may not be escalated; the callee changes accounts only as their owner may; a called foreign program may '
    'otherwise do anything to the accounts passed writable, and conserves lamports',
    'system program: Transfer, Allocate, Assign and CreateAccount as documented (contracts in world.py)',
    'program-derived addresses are collision-free, off the curve and never derived from themselves (hash assumption); seeds that may produce equal bytes may coincide',
    'rent: the default parameters, minimum balance (128 + n) * 6960; account data at most 10 MiB; growth at most 10240 bytes per instruction',
    'the external functions listed under trusted_base do what their documentation says (contracts in models.py); every other library function is executed from its own MIR '
    '(library_functions_executed)',
    'byte strings handed to bytemuck are 8-aligned (the runtime aligns account data to 8 and the records are read at offset 8)',
    'borsh seed lists and key sets are opaque values with a length and a content (uninterpreted; no bound on their size)',
    'machine integers are mathematical integers with explicit range checks: every add, subtract and multiply that could leave its type is a branch (release semantics: it wraps)',
    'memory allocation does not fail; compute and stack limits are ignored (running out fails the transaction)',
    'history properties assume that the state was reached through the delegation program from an empty ledger and that its own program-derived accounts other than escrows never sign '
    'from outside (invariant Inv, itself proved inductive under C02, C05 and C24)',
]


def split(prog, fns, modelled):
    """names of the verified functions of the crate, of the library functions executed from their own MIR, and of the
    external ones used through an assumed contract"""
    inner, lib = set(), set()
    for i in fns:
        n = prog.F[i]['name']
        if 'dlp::' in n or n.startswith('<dlp'):
            inner.add(n)
        else:
            lib.add(prog.F[i]['def'])
    return sorted(inner), sorted(lib), sorted({prog.F[i]['def'] for i in modelled})
