import json
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
 'default':('runtime monitoring: reference-model oracle over generated, boundary and hostile inputs, with overflow, panic and hang monitors',
   'Every execution observed is compared with an independent reference or a defining equation; assurance is by exploration (inputs sampled from realistic, boundary and hostile distributions, small domains enumerated). Trusts the harness reference and IEEE arithmetic; tolerances are stated in DESIGN.md.'),
 'hist':('runtime monitoring: reference ledger model checked after every operation of generated histories, with panic and hang monitors',
   'Observed states are compared item by item with an independently written model of the statements; assurance is by exploration of generated ledgers and operation sequences. Trusts the layout tables written in the harness.'),
 'C34':('runtime monitoring: result comparison across call orders, threads and processes, deadlock watch, ThreadSanitizer and Miri',
   'No difference, data race, undefined behaviour or deadlock on the executions observed (thousands of processes, racing first uses, ThreadSanitizer and Miri schedules). Schedules are sampled, not enumerated.'),
}
hist={'C%02d'%i for i in range(20,34)}
checks=[]
for p in ps:
    i=p['id']
    t=T['C34'] if i=='C34' else T['hist'] if i in hist else T['default']
    checks.append(dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
      technique=t[0],level='exploration',level_note=t[1]))
json.dump(dict(version=1,setup_cmd='./check.sh build all',checks=checks,not_applicable=[],
  notes='No hooks in /repo: everything observed is public. known_findings.txt lists recorded and repaired defects.'),
  open('/verif/MANIFEST.json','w'),indent=1)
