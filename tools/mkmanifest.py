#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Every obligation generated from the MIR of /repo (built on every run) is discharged by Z3 for all accounts, aliasing, owners, flags, balances, data and payloads, '
        'without bounds; helper functions are verified against contracts of their own where listed in the evidence. Trusted: rustc\'s MIR, the generator, Z3, and the contracts of the Solana '
        'runtime, system program, program-derived addresses, borsh/bytemuck/bincode and std listed in the evidence file.')
EXTRA = {
    'C02': ' Histories: inductive invariant over every instruction.', 'C03': ' Histories: inductive invariant over every instruction.',
    'C05': ' Histories: inductive invariant over every instruction.', 'C24': ' Histories: inductive invariant over every instruction.',
    'C10': ' The owner program is an arbitrary callee constrained only by the runtime contract.',
    'C21': ' Key sets and seed lists are opaque to the proof: their borsh encoding is an assumed contract.',
    'C26': ' The runtime\'s own rule about accounts left below rent exemption is not modelled.',
}
checks = [dict(property=p['id'], quick_cmd='python3-vt vcgen/run.py %s quick' % p['id'], thorough_cmd='python3-vt vcgen/run.py %s thorough' % p['id'],
               technique='contract-based deductive verification (verification conditions from rustc MIR, discharged by Z3)', level='proof',
               level_note=NOTE + EXTRA.get(p['id'], '')) for p in ps]
m = dict(version=1, setup_cmd='bash tools/dump.sh', checks=checks, not_applicable=[],
         notes='tools/dump.sh builds the MIR extractor and extracts /repo; vcgen/run.py is the check of one property. No hooks are needed in /repo: the verified text is the compiler\'s MIR.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
