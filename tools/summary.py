"""Run the verifier and print one line per failing obligation (VERIF_REPO selects the tree)."""
import json,subprocess,sys,os
r=subprocess.run(['python3-vt','vc/run.py','--tier','quick']+sys.argv[1:],capture_output=True,text=True,cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
try: d=json.loads(r.stdout[r.stdout.index('{'):])
except Exception: print(r.stdout[-2000:],r.stderr[-2000:]); sys.exit(2)
n=bad=0
for s in d['specs']:
    for u in s['unsupported'][:6]: print('GAP',s['name'],'|',str(u)[:200])
    for o in s['obligations']:
        n+=1
        if o['ok']!=o['paths'] or o['refuted'] or o['unknown']:
            bad+=1; print('BAD',s['name'],'|',o['name'],o['ok'],o['refuted'],o['unknown'])
print(len(d['specs']),'specs',n,'obligations',bad,'bad, import:',d.get('import'))
