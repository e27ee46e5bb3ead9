#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('simulated sender, lossy segment network, crashing reader; records compared with those sent', 'the value a record stands for is computed by a reference interpreter of the declaration'),
 'C02': ('simulated request-reply conversation with a blocking reader; every request judged by what the rest of the record does', 'needs no interpreter for the verdict: the real parser on longer prefixes is the oracle'),
 'C03': ('simulated corrupting channel and receive buffer with changing surroundings under an allocator seam', 'no oracle but the property itself: panic, suffix, positions, same outcome with other surroundings'),
 'C04': ('simulated corrupting channel; outcome compared with a reference interpreter of the declaration', 'trusts the reference interpreter'),
 'C05': ('simulated torn files cut at every byte; complete declarations against twins without completeness', 'the twin and the reference interpreter are the oracles'),
 'C06': ('simulated append-only log with torn, zeroed, garbage and flipped appends, crash and recovery rounds', 'elements are counted one by one by the reference interpreter'),
 'C07': ('fault injection at the n-th call of nested parsers; outcome compared with the declared composition', 'trusts the reference interpreter for absorption rules; failures and panics judged without it'),
 'C08': ('recorded history of user-code calls over retried attempts with injected faults, compared with the declared order', 'trusts the reference interpreter'),
 'C09': ('hostile lengths under a metering allocator', 'the bound is 320 KiB + 512 bytes per input byte at once, 1 MiB + 4 KiB per input byte in total'),
 'C10': ('drop ledger of nested values under faults, panics and cuts injected at chosen calls', 'no oracle but the ledger'),
 'C11': ('simulated receive buffer moved, regrown and misaligned between attempts', 'outcomes at different addresses are compared with each other; nested positions with the reference interpreter'),
 'C12': ('scheduler owning every switch between parses: threads parked at user-code boundaries, re-entrant and abandoned parses', 'each parse alone is the oracle'),
 'C13': ('simulated session switching byte order between and during attempts; values and order queries compared with declared precedence', 'trusts the reference interpreter'),
 'C14': ('simulated multiplexed link with lost, duplicated, reordered, unknown and damaged messages', 'first-match rule evaluated on the declaration; payloads by the reference interpreter'),
 'C15': ('twin declarations driven by the same simulated stream and faults', 'the twin is the oracle'),
 'C16': ('the same seeds run in three builds; complete histories compared', 'the builds are each other\'s oracle'),
 'C20': ('everything printed during attempts under cuts, damage and nested faults is collected and compared with the failures of traced fields', 'which fields fail, in which order, is computed by the reference interpreter'),
 'C19': ('received segments parsed in place by the generic implementations, compared with the contiguous run under the same cuts, damage and nested faults', 'the contiguous run and the reference interpreter are the oracles'),
}
checks = [{
  'property': k, 'quick_cmd': f'./check.sh {k}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {k}',
  'evidence_file': f'evidence/{k}.json', 'technique': 'deterministic simulation with fault injection: ' + t, 'level': 'exploration',
  'level_note': ('Seeded search over schedules and faults on the real generated code for a catalogue of about 2200 declarations' if k != 'C19' else 'Seeded search over segmentations and faults on the real library implementations for some 370 composed types') + '; samples, does not enumerate. ' + n + '.',
} for k, (t, n) in T.items()]
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'checks': checks,
 'not_applicable': [
  {'property': 'C17', 'reason': 'decided when the macro runs inside the compiler: no run-time schedule, fault, clock or I/O exists for a simulator to control'},
  {'property': 'C18', 'reason': 'name capture that fails to compile is decided inside the compiler, with nothing for a simulator to schedule; capture that changes run-time behaviour shows up under C04 and C11'},
 ],
 'notes': 'No hooks in /repo: every seam the simulator needs (input buffers, user code in attributes, nested Parse implementations, error types, allocator, build features) is public API.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
