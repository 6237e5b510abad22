#!/usr/bin/env python3
"""writes MANIFEST.json; CLAIMED lists the properties that have a check"""
import json
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NOT = {}
NOTE = 'Every obligation generated from the current headers (LLVM IR of the real code) is discharged by z3 for all inputs, histories and schedules; functions outside the verifier\'s reach are named in the evidence file and covered only by a bounded replay of the real code. Trusts: clang lowering, the VC generator in /verif/vp, z3, the contracts of pthread/libstdc++ listed in the evidence.'
EXTRA = {
 'C04': ' Race freedom and happens-before are decided by ownership contracts (every field access under the internal lock; acquire/release orders for the atomics), so they hold on any C++11 memory model.',
 'C17': ' The native pthread operations themselves are contracts.', 'C18': ' The native sem_* operations themselves are contracts.',
 'C21': ' The Win32 calls are contracts; the headers are compiled against stand-in declarations of the system headers (drivers/stubs).', 'C22': ' The os_unfair_lock and libdispatch calls are contracts; the headers are compiled against stand-in declarations of the system headers (drivers/stubs).',
 'C16': ' std::lock is used through its standard contract.',
}
checks = [dict(property=i, quick_cmd='python3-vt /verif/vp/run.py %s' % i, thorough_cmd='python3-vt /verif/vp/run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
    technique='contract-based deductive verification of the real code (contracts, monitor invariants and ghost state over LLVM IR of the headers, obligations discharged by SMT)',
    level='proof', level_note=NOTE + EXTRA.get(i, '')) for i in ids if i not in NOT]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT.items())],
    notes='No hooks in /repo are needed: field offsets are read with -fno-access-control, the shared state is reached through the object pointer.'), open('/verif/MANIFEST.json', 'w'), indent=1)
