import sys, json, time
sys.path.insert(0,'/verif/mirv')
import engine, contracts, spec
import build; import os; prog=engine.Prog(os.environ.get("MIR") or build.dump(build.repo_digest()))
ct=contracts.Contracts(prog)
import interp
interp.make_tokens(int(__import__('os').environ.get('J','8')))
names=sys.argv[1:]
if not names:
    print({k:v for k,v in ct.missing.items()}); print(len(ct.ctors),len(ct.calls)); sys.exit()
for n in names:
    r=contracts.verify(prog,ct,n,300)
    print('==',n,'inst',r['instances'],'paths',r['paths'],'q',r['queries'],'solver %.1f wall %.1f'%(r['solver_s'],r['wall_s']),'restarts',r.get('restarts'),'closed',r['closed'],'used',r['used'])
    o=r['obligations']; print('    obligations',len(o),'instances',sum(v[0] for v in o.values()),'ok',sum(v[1] for v in o.values()))
    for k,v in o.items():
        if v[0]!=v[1]: print('   ',k,v)
    for f in r['failures'][:6]: print('  FAIL',f['label'],f['kind'],f['taint'],f['loc'],f['info'][:600],'COND',(f['cond'] or '')[:300])
    for u in sorted(set(r['unsupported']))[:8]: print('  UNSUP',u[:500])
