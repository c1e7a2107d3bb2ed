"""Writes MANIFEST.json (run by hand when checks are added)."""
import json
T={
'P01':'end-to-end monitor: generated satisfied circuits proved and verified, acceptance asserted',
'P02':'end-to-end monitor: generated copy-constraint circuits proved and verified, acceptance asserted',
'P03':'end-to-end monitor: generated lookup circuits proved and verified, acceptance asserted',
'P04':'adversarial workload with rejection monitor: proofs of violated gates',
'P05':'fault-injected dishonest prover (hooked running products) with rejection monitor',
'P06':'fault-injected dishonest prover (hooked permuted columns and product) with rejection monitor',
'P07':'mutation of valid proofs with rejection monitor',
'P08':'changed and adaptively chosen public inputs with rejection monitor',
'P09':'verifier of a perturbed circuit with rejection monitor',
'P10':'online transcript recorder, event logs of prover and verifier compared offline',
'P11':'dishonest opening prover with pinned challenge and rejection monitor',
'P12':'protocol monitor on the batched opening with honest and adaptive dishonest provers',
'P13':'malformed-proof stress with panic, overflow and hang monitor',
'P14':'history monitor: verdicts of reused verifier objects against fresh ones',
'P15':'round-trip and truncation monitor over encodings',
'P16':'differential monitor over two proofs and the committed columns seen by an instrumented commitment scheme',
'P17':'differential monitor: mock prover against row model and real prover',
'P18':'row-relation monitor on every built-in gate and lookup',
'P19':'differential monitor: three evaluation modes against an independent evaluator',
'P20':'key monitor: prover-side against verifier-side keys and an independent degree and vanishing oracle',
'P21':'multiset and adjacency monitor on the permutation helper',
'P22':'row-by-row recurrence monitor on running products and constraint forms',
'P23':'algebraic-law monitor on commitments and openings',
'P24':'history monitor on transcript streams',
'P25':'byte-equality monitor over histories and concurrent threads',
'P26':'misconfiguration fault injection with error-value monitor',
'P27':'proof-shape monitor on generated and degenerate assignments',
}
N='Holds on every execution the seeded workload produced (counts, distinct situations and samples in the evidence file); nothing is claimed about executions not produced. Trusts arkworks field, curve and FFT arithmetic and the monitors in /verif/harness.'
X={
'P05':' Dishonest provers are limited to the listed strategies.',
'P06':' Dishonest provers are limited to the listed strategies; one recorded finding (PermutationInfo::dummy()).',
'P11':' One challenge is pinned on both sides so that the constraint identity holds for any claimed values.',
'P25':' Thread interleavings are those the scheduler produced.',
}
checks=[dict(property=p,quick_cmd=f'./check.sh {p} quick',thorough_cmd=f'./check.sh {p} thorough',technique='runtime monitoring: '+t,level='exploration',level_note=N+X.get(p,'')) for p,t in sorted(T.items())]
m=dict(version=1,setup_cmd='./check.sh build',
 hooks=dict(guard='cfg(zok_verif)',enable="RUSTFLAGS='--cfg zok_verif' (set by env.sh, used by check.sh)",source_commits=['24ed7fc45a843b836733f5f455f3734534106103']),
 checks=checks,not_applicable=[],
 notes='Each check rebuilds its monitor against /repo with overflow checks and debug assertions on. ./check.sh <id> replay <file> runs one recorded case again.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
