import os,subprocess,json,sys
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
base=json.load(open('/opt/vp/BASELINE.json'))
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for i in ids:
    d=f'/verif/seeded/{i}'
    m=json.load(open(d+'/meta.json'))
    assert sh('git -C /repo status --porcelain').stdout.strip()=='' 
    r=sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(i,'APPLY FAIL',r.stderr); continue
    try:
        sh('bash /opt/vp/test.sh /tmp/sb/o.json'); t=json.load(open('/tmp/sb/o.json'))
        dm=sh(f'sh {d}/demo.sh',cwd='/repo').returncode
        props=[m['property']] if not os.environ.get('ALL') else [f'C{n:02d}' for n in range(1,26)]
        res=[]
        for p in props:
            c=sh(f'PYTHONHASHSEED=0 VERIF_SEED={os.environ.get("SEED","1")} timeout 900 python3-vt check.py {p}',cwd='/verif')
            out=[l for l in c.stdout.splitlines() if 'KNOWN' not in l]
            res.append((p,c.returncode,out[0][:140] if out else c.stderr[-300:]))
    finally:
        sh('git -C /repo checkout -- .')
    print(i,'failed tests' if t['failed'] else 'tests ok',len(t['passed']),'demo',dm,res if len(res)==1 else [(p,r) for p,r,_ in res],flush=True)
