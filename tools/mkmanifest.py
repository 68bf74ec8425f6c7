import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL={'C13':'fault_enumeration'}
T={
'C01':'model-based property testing: random insertion histories against a reference sequence of runs',
'C02':'model-based property testing: lookups in random trees against the run of the reference sequence covering the index, with and without hints',
'C03':'model-based property testing: random front/back step scripts over random (also invalid) ranges against the overlapping runs of the reference sequence',
'C04':'property testing with an instrumented slice type: every split/join callback of random insertions compared with the calls the contract allows',
'C05':'metamorphic property testing: the same random history with and without adversarial path hints',
'C06':'differential property testing: paths from every cursor source compared with each other and with the structure they imply',
'C07':'stateful model-based property testing: held references against stable run identities in the reference sequence',
'C08':'stateful model-based property testing of the reference/borrow lifecycle, with reentrant user code run inside callbacks',
'C09':'differential property testing: families of clones against one reference sequence per member',
'C10':'property testing of random multi-threaded programs against per-thread reference sequences and a drop ledger, natively and under Miri (data-race detection)',
'C11':'model-based property testing of deep clones: equality, independence, clone counts, drop ledger',
'C12':'property testing with a drop ledger and a counting allocator (net-zero memory after every history)',
'C13':'fault enumeration: every callback of generated operations made to panic in turn, against a drop ledger and reference sequences',
'C14':'invariant property testing: node structure rebuilt from paths plus the crate validator after every operation',
'C15':'property testing with counted index operations and clones against logarithmic bounds and metamorphic cost relations',
'C16':'round-trip and differential property testing over JSON and a fault-injecting serializer/deserializer',
'C17':'differential property testing of the range predicates against enumerated set semantics',
'C18':'model-based property testing with a non-commutative index type (unitriangular 4x4 integer matrices)',
'C19':'property testing of invalid calls against documented refusals, with before/after comparison',
'C20':'differential property testing: mock, tree and reference sequence in lock step',
'C21':'fuzzing with ill-behaved user types, plus the drivers of the other properties, under AddressSanitizer and Miri',
'C23':'fuzzing of the command layer: byte strings decoded, predictions compared with the real tree, printed tests compiled and run',
'C24':'differential testing of generated type combinations: trait-probe results against the documented table',
'C27':'generated straight-line programs and signatures against a model of borrowing, compiled with and without the nightly feature, and run when accepted',
'C26':'model-based property testing of Constant values over built-in indexes against a flat array',
'C25':'metamorphic property testing: one history over all feature parameters, node sizes and index widths',
}
NA={}
EXTRA_CHECKS=[]
exec(open(os.path.join(root,'tools','manifest_data.py')).read())
import re
HAVE=re.findall(r'c\d\d',re.search(r'props!\(([^)]*)\)',open(os.path.join(root,'harness/src/props/mod.rs')).read()).group(1))
HAVE+=[c.lower() for c in EXTRA_CHECKS]
T={k:v for k,v in T.items() if k.lower() in HAVE}
props=[json.loads(l)['id'] for l in open(os.path.join(root,'properties.jsonl'))]
m={'version':1,'setup_cmd':'bash run.sh build','checks':[],'not_applicable':[]}
for p in props:
    if p in T:
        c={'property':p,'quick_cmd':f'bash run.sh {p} quick','thorough_cmd':f'bash run.sh {p} thorough',
           'technique':T[p],'level':LEVEL.get(p,'exploration'),'level_note':NOTE.get(p,'random generated-input search; no completeness claim beyond the cases run')}
        m['checks'].append(c)
    else:
        m['not_applicable'].append({'property':p,'reason':NA.get(p,'check under construction')})
if HOOKS: m['hooks']=HOOKS
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'checks')
