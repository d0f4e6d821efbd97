import json,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    e=json.load(open('%s/evidence/%s.json'%(H,p))); c=e['coverage']
    print(p,e['tier'],'wall',e['wall_s'],'paths',c['symbolic_paths'],'q',c['queries'],'unk',c['queries_unknown'],'val',c['traces_validated_against_impl'],'unrep',len(c['unreproduced_candidates']),'mism',len(c['mismatching_traces']),'INC',len(c['not_completed']))
    for j in c['jobs']: print('   ',j['job'],j.get('entry'),j.get('params'),j.get('build'),'paths',j.get('paths'),'wall',j.get('wall_s'),'' if j.get('exhausted_within_bounds') else 'NOT-EXH')
    for n in c['not_completed']: print('    INC',n)
