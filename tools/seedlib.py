import os, subprocess, json, shutil, sys, tempfile
REPO="/repo"; VER=os.environ.get("VER","/verif")
def run(cmd, cwd=None, env=None, timeout=900):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(cmd,cwd=cwd,env=e,shell=isinstance(cmd,str),capture_output=True,text=True,timeout=timeout)
    return p.returncode,p.stdout+p.stderr
def origline_ok(d):
    # every removed / context-changed line must not be only from fix commits
    return True
BASE=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
def make(bug, checks=None, tests=True):
    """bug: dict(id, property, edits=[(file, old, new)], demo, needs, breaks)"""
    d=f"/tmp/w/m/{bug['id']}"
    shutil.rmtree(d,ignore_errors=True)
    shutil.copytree(REPO,d,symlinks=True,ignore=shutil.ignore_patterns('__pycache__'))
    out={'id':bug['id']}
    for f,old,new in bug['edits']:
        p=os.path.join(d,'src/pymt',f)
        s=open(p,newline='').read(); crlf='\r\n' in s
        s=s.replace('\r\n','\n')
        n=s.count(old)
        if n!=1: out['err']=f"{f}: {n} matches of {old[:60]!r}"; shutil.rmtree(d); return out
        s=s.replace(old,new)
        if crlf: s=s.replace('\n','\r\n')
        open(p,'w',newline='').write(s)
    patch=subprocess.run(['git','diff'],cwd=d,capture_output=True).stdout
    sd=f"/verif/seeded/{bug['id']}"; os.makedirs(sd,exist_ok=True)
    open(sd+'/patch.diff','wb').write(patch)
    open(sd+'/demo.py','w').write(bug['demo'])
    open(sd+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(sd+'/demo.sh',0o755)
    json.dump({"property":bug['property'],"needs":bug['needs'],"what_it_breaks":bug['breaks']},open(sd+'/meta.json','w'),indent=1)
    rc,o=run(['bash',sd+'/demo.sh'],cwd=REPO); out['demo_base']=rc; out['demo_base_out']=o[-300:] if rc else ''
    rc,o=run(['bash',sd+'/demo.sh'],cwd=d); out['demo_patched']=rc; out['demo_out']=o[-200:]
    if tests:
        rc,o=run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=300','-x','src/pymt/tests'],cwd=d,env={'PYTHONPATH':d+'/src','PYTHONDONTWRITEBYTECODE':'1','PYTHONHASHSEED':'0'})
        out['tests']=rc; out['tests_out']=o[-500:] if rc else o.strip().splitlines()[-1]
    res={}
    for c in (checks or [bug['property']]):
        rc,o=run(['/usr/bin/python3',VER+'/check.py',c,'quick'],cwd=VER,env={'VERIF_REPO_SRC':d+'/src','VERIF_EVIDENCE_DIR':'/tmp/w/ev'})
        v=[l for l in o.splitlines() if 'VIOLATION' in l or 'inconclusive' in l.lower() or 'BROKEN' in l]
        res[c]=(rc,(v or o.splitlines()[-1:])[:2])
    out['checks']=res
    shutil.rmtree(d)
    return out
