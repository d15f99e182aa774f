import sys,json; sys.path.insert(0,'/tmp/w')
from seedlib import make
from multiprocessing.pool import ThreadPool
import importlib
mod=importlib.import_module(sys.argv[1]); ids=sys.argv[2:]
bs=[b for b in mod.B if not ids or b['id'] in ids]
assert len({b['id'] for b in mod.B})==len(mod.B)
for r in ThreadPool(2).imap_unordered(make,bs):
    ok = r.get('demo_base')==0 and r.get('demo_patched') not in (0,None) and r.get('tests')==0
    caught = any(v[0]==1 for v in r.get('checks',{}).values())
    print(('VALID ' if ok else 'INVALID'),('CAUGHT' if caught else 'MISSED'),r['id'], r.get('checks') if ok and not caught or r.get('err') else '', flush=True)
    if r.get('err'): print('   ',r['err'])
    if not ok: print('   ',{k:r.get(k) for k in('demo_base','demo_base_out','demo_patched','demo_out','tests','tests_out')})
    with open('/tmp/w/seedres.jsonl','a') as f: f.write(json.dumps(r)+'\n')
