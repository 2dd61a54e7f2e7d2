"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id,prop,edits=[(file,old,new)],demo=Go source body,imports=[...],needs,breaks)].
Writes seeded/<id>/{patch.diff,demo_test.go,demo.sh,meta.json} from a scratch copy of /repo."""
import sys,os,subprocess,json,shutil,tempfile,runpy
S=runpy.run_path(sys.argv[1])['SEEDS']
only=sys.argv[2:] 
for s in S:
    if only and s['id'] not in only: continue
    w=tempfile.mkdtemp(prefix='/tmp/mkseed'); subprocess.check_call(f'cp -a /repo/. {w}/ && cd {w} && git checkout -q -- .',shell=True)
    for f,o,n in s['edits']:
        t=open(f'{w}/{f}').read(); assert t.count(o)==1,(s['id'],f,t.count(o)); open(f'{w}/{f}','w').write(t.replace(o,n))
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    subprocess.check_call(f'cd {w} && gofmt -l *.go; git diff > {d}/patch.diff',shell=True)
    imps=sorted(set(["testing"]+s.get('imports',[])))
    open(f'{d}/demo_test.go','w').write("package bin\n\nimport (\n"+"".join(f'\t"{i}"\n' for i in imps)+")\n\n"+s.get('decls','')+"\nfunc TestZZDemo(t *testing.T) {\n"+s['demo']+"\n}\n")
    subprocess.call(['gofmt','-w',f'{d}/demo_test.go'])
    shutil.copy('/verif/tools/demo.sh.tmpl',f'{d}/demo.sh')
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(f'{d}/meta.json','w'),indent=1)
    shutil.rmtree(w)
