import json,sys
done=sys.argv[1].split(',')
levels={'C01':'fault_enumeration'}
notes={
'C01':'Every crash point of each generated document is enumerated (documents up to 1,500 bytes; a sample in longer ones), over seeded documents; assumes stale bytes after a complete document do not begin with a space or a tab.',
'C02':'Seeded search over damaged documents and values; work is bounded by allocation counts and CPU time of the forked run; a crash, abort, stack overflow, panic or runaway is a violation.',
'C03':'Seeded search over typed and foreign documents and relay chains; the oracle is the typed content generated by the harness and an independent reader. KF-3 and KF-4 are known findings.',
'C04':'Seeded search over line faults; the oracle is an independent line reader that says nothing where the standard does not.',
'C05':'Seeded search over typed documents; the oracle is an independent strict reader of the written bytes.',
'C06':'Seeded search over hosts, zones, zone changes and faults; instants computed from the text.',
'C07':'Seeded search over writer and reader hosts; KF-1 and KF-2 are known findings recognised by exact signatures, anything else is a violation.',
'C08':'Seeded search over components, rules, hosts; the oracle is a reference expansion. BY parts excluded.',
'C09':'Seeded search over crash and resume histories, checked for exactly-once delivery against the uninterrupted series.',
'C10':'Seeded search over hostile rules, with progress and termination checked at every step within work budgets.',
'C11':'Seeded search over thread schedules (preemption at allocator, clock, environment, file and lock operations, edges of the control flow, atomics and static memory) and histories, against the results of fresh processes.',
'C13':'Seeded search over collections of dates and hosts; the laws of an order, and each comparison against an independent evaluator of zone data.',
'C14':'Seeded search over stored texts and hosts; read alone, in a document, and by an independent reader.',
'C15':'Seeded search over conforming documents, their spellings and hosts; the oracle is an independent reader of the original. KF-5 to KF-11 are known findings, each shown by a probe of its own.',
'C16':'Seeded search over histories of operations on dates and hosts; the oracle is a model of instants, wall-clock times and days, an independent evaluator of zone data and a reference expansion. BY parts excluded.',
'N01':'Seeded search over values and hosts, for 126 generated invocations; the oracle is the component built field by field. That an invocation does not compile is a violation.',
'C12':'Seeded search over zones, transitions, zone changes and database faults; the oracle is an independent evaluator of zone data.',
}
na={
}
m={'version':1,'setup_cmd':'./check.sh build','checks':[],'not_applicable':[]}
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    if i in done:
        m['checks'].append({'property':i,'quick_cmd':f'VERIF_TIER=quick ./check.sh {i}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {i}',
         'technique':'deterministic simulation with fault injection (seeded schedules, hosts and faults; tape-shrunk replay files)',
         'level':levels.get(i,'exploration'),'level_note':notes[i]})
    else:
        m['not_applicable'].append({'property':i,'reason':na.get(i,'Not claimed yet: its check is being built.')})
m['notes']='No hooks in /repo: the seams are the C symbols std and chrono call, defined by the simulator (see DESIGN.md). Genuine defects repaired or known are in known_findings.txt.'
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
