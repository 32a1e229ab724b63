"""Writes DESIGN.md from tools/design/, the rules and tests in pbt/checks, and the planted bugs."""
import json,ast,re,glob,os,subprocess,collections
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D=V+'/tools/design/'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
rules={}; tests={}
for f in sorted(glob.glob(V+'/pbt/checks/c[0-9]*.py')):
    t=ast.parse(open(f).read()); i=os.path.basename(f)[:3].upper()
    tests[i]=[]
    for n in t.body:
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and getattr(n.value.func,'id','')=='rule': rules[i]=ast.literal_eval(n.value.args[1])
        if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) and getattr(n.value.func,'id','')=='also':
            tests[i].append((n.value.args[2].value,[ast.literal_eval(k.value) for k in n.value.keywords if k.arg=='quick'][0]))
        if isinstance(n,ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d,ast.Call) and d.func.id=='test':
                    q=[ast.literal_eval(k.value) for k in d.keywords if k.arg=='quick'][0]; tests[i].append((n.name,q))
import runpy
ORACLE=runpy.run_path(D+'oracle.py')['O']
seeds=collections.OrderedDict()
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%d)); seeds.setdefault(m['property'],[]).append((d,m))
out=open(D+'head.md').read()
for p in props:
    i=p['id']; o=ORACLE[i]
    out+='\n### %s %s\n\n'%(i,p['title'])
    out+='*Cases.* %s\n\n*Oracle.* %s\n\n*Bounds.* %s\n\n*Beyond the tests.* %s\n\n'%(rules[i],o['oracle'],o['bounds'],p['why_tests_cant'])
    out+='*Tests (cases per quick run).* '+', '.join('%s %d'%x for x in tests[i])+'.\n'
out+=open(D+'tail.md').read()
out+='\n## Planted bugs and the check that catches each\n\nEach is caught by the quick check of its own property (seed 1). \n\n| planted bug | check | needs |\n|---|---|---|\n'
for i in seeds:
    for d,m in seeds[i]: out+='| %s | %s | %s |\n'%(d,i,m['needs'].replace('|','/'))
open(V+'/DESIGN.md','w').write(out)
print(len(out))
