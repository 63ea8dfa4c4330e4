#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the tables below"""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
SERVER = ['C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C21']
CLIENT = ['C12','C13','C14','C15','C16','C17','C18','C19','C20']
NA = {
 'C30': 'A pure function of a type definition and a JSON value: no concurrency, time, I/O, randomness or second party takes part, so there is no schedule or fault to simulate.',
 'C31': 'A relation between two texts generated at compile time; nothing nondeterministic takes part.',
 'C32': 'A fixed table of built-in types; deciding it needs exhaustive value testing, not schedules or faults.',
 'C33': 'Compile-time text generation without any source of nondeterminism.',
 'C34': 'A property of the compiler run on user code; no run-time behaviour to simulate.',
 'C35': 'Termination of a sequential, deterministic generator; no schedule or fault takes part. (Loading under permuted registries is covered by C20.)',
 'C36': 'A property of the JSON codecs alone (values, not schedules). What the simulator sees of it - values arriving unaltered through real sockets framing, fragmentation and reconnection - is judged under C11 and C18.',
}
TECH = 'deterministic simulation with fault injection: seeded search over schedules and fault sequences'
NOTE_S = ('Seeded exploration of the real derive output, proxy, axum/hyper/tungstenite and tokio scheduler in one process on a virtual clock; '
 'every task choice, latency, fragmentation, disconnect and registry order comes from the seed, and the recorded history is judged against a reference model. '
 'A quiet run means no violation in the runs made (see evidence), not a proof. Trusts: the simulated sockets, the scripted clients and the oracle; '
 'interleavings are explored at await granularity, not between instructions of one poll.')
NOTE_C = ('Seeded exploration of the real generated TypeScript client (transpiled, run in Node in lock-step with the simulator) on a virtual clock with a simulated browser WebSocket; '
 'every socket event, timer lateness, refusal, loss and outage comes from the seed, and the recorded history is judged against a reference model. '
 'A quiet run means no violation in the runs made (see evidence), not a proof. Trusts: the browser WebSocket model, the simulated sockets and the oracle.')
checks = [dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'], technique=TECH,
               level='exploration', level_note=NOTE_S if p['id'] in SERVER else NOTE_C)
          for p in props if p['id'] in SERVER + CLIENT]
na = [dict(property=p['id'], reason=NA.get(p['id'], 'Not claimed yet: the client side of the simulator is still being built.'))
      for p in props if p['id'] not in SERVER + CLIENT]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: nondeterminism is taken over below it, in patched copies of tokio, futures-util and inventory made by setup.sh from the installed registry sources.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(R + '/MANIFEST.json', 'a').write('\n')
