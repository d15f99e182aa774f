import ast,copy,sys,os,json,shutil,subprocess
from concurrent.futures import ThreadPoolExecutor
import threading,queue
'''Mutants of every statement; survivors of the tests of the package go to /tmp/w/mut/surv.jsonl.
  python3 mutate.py WORKERS [FILES]'''
SRC='/repo/src'
FILES=['mpt.py','empt.py','keypairs.py','merkletools.py','mt.py','proof.py','utils/utils.py','utils/node.py','utils/nibble_path.py','utils/hash.py']
def seg(lines,n):
    # char offsets
    off=[0]
    for l in lines: off.append(off[-1]+len(l.encode()))
    return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
CMP={ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Lt:[ast.LtE,ast.Gt],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE,ast.Lt],ast.GtE:[ast.Gt],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}
BIN={ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Add],ast.FloorDiv:[ast.Mult],ast.Mod:[ast.FloorDiv],ast.BitAnd:[ast.BitOr],ast.BitOr:[ast.BitAnd],ast.RShift:[ast.LShift],ast.LShift:[ast.RShift]}
def mutants(src):
    tree=ast.parse(src); lines=src.splitlines(True)
    out=[]
    doc=set()
    for n in ast.walk(tree):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): doc.add(n.body[0])
    ann=set()
    for n in ast.walk(tree):
        for a in ('annotation','returns'):
            x=getattr(n,a,None)
            if x is not None:
                for y in ast.walk(x): ann.add(y)
    raisectx=set()
    for n in ast.walk(tree):
        if isinstance(n,ast.Raise):
            for y in ast.walk(n):
                if y is not n: raisectx.add(y)
    def emit(n,new,kind):
        a,b=seg(lines,n)
        t=new if isinstance(new,str) else ast.unparse(new)
        if isinstance(n,ast.expr) and not isinstance(new,str) and isinstance(n,(ast.BoolOp,ast.BinOp,ast.Compare,ast.UnaryOp,ast.IfExp)): t='('+t+')'
        bs=src.encode(); out.append((n.lineno,kind,(bs[:a]+t.encode()+bs[b:]).decode(),bs[a:b].decode()[:70],t[:70]))
    for n in ast.walk(tree):
        if n in ann or n in raisectx: continue
        if isinstance(n,ast.Compare) and len(n.ops)==1:
            for o in CMP.get(type(n.ops[0]),[]):
                m=copy.deepcopy(n); m.ops=[o()]; emit(n,m,'cmp')
        if isinstance(n,ast.BinOp):
            for o in BIN.get(type(n.op),[]):
                m=copy.deepcopy(n); m.op=o(); emit(n,m,'bin')
        if isinstance(n,ast.BoolOp):
            m=copy.deepcopy(n); m.op=ast.Or() if isinstance(n.op,ast.And) else ast.And(); emit(n,m,'bool')
            for i in range(len(n.values)):
                m=copy.deepcopy(n); del m.values[i]; emit(n,m if len(m.values)>1 else m.values[0],'booldrop')
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): emit(n,n.operand,'not')
        if isinstance(n,ast.Constant) and not any(isinstance(d,ast.Expr) and d.value is n for d in doc):
            v=n.value
            if isinstance(v,bool): emit(n,str(not v),'const')
            elif isinstance(v,int):
                for w in (v+1,v-1): emit(n,'(%d)'%w if w<0 else str(w),'const')
            elif isinstance(v,bytes): emit(n,repr(v+b'\0'),'const')
            elif isinstance(v,str): emit(n,repr(v+'X'),'const')
            elif v is None: emit(n,"b''",'const')
        if isinstance(n,(ast.If,ast.While)):
            emit(n.test,'True','cond'); emit(n.test,'False','cond')
        if isinstance(n,ast.IfExp): emit(n,n.body,'ifexp'); emit(n,n.orelse,'ifexp')
        if isinstance(n,(ast.Expr,ast.Assign,ast.AugAssign,ast.Raise,ast.Delete)) and n not in doc: emit(n,'pass','del')
        if isinstance(n,ast.Return) and n.value is not None:
            emit(n,'return None','ret')
        if isinstance(n,ast.Call):
            if len(n.args)>=2:
                m=copy.deepcopy(n); m.args[0],m.args[1]=m.args[1],m.args[0]; emit(n,m,'swap')
            for i in range(len(n.keywords)):
                m=copy.deepcopy(n); del m.keywords[i]; emit(n,m,'kwdrop')
            if len(n.args)>=1 and len(n.args)<=3:
                m=copy.deepcopy(n); del m.args[-1]; emit(n,m,'argdrop')
            if len(n.args)==1 and isinstance(n.func,ast.Name) and n.func.id in('bytes','list','bytearray','int','len','bool','str'): emit(n,n.args[0],'unwrap')
            if isinstance(n.func,ast.Attribute) and not n.args and not n.keywords: emit(n,n.func.value,'uncall')
        if isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice):
            emit(n,n.value,'slice')
        if isinstance(n,ast.ExceptHandler):
            pass
        if isinstance(n,ast.Break): emit(n,'continue','brk')
        if isinstance(n,ast.Continue): emit(n,'break','brk')
    # dedupe, must parse
    res=[];seen={src}
    for l,k,s,a,b in sorted(out,key=lambda x:x[0]):
        if s in seen: continue
        seen.add(s)
        try: ast.parse(s)
        except SyntaxError: continue
        res.append((l,k,s,a,b))
    return res
def tests(f):
    T=['test_mpt','test_mt','test_utils','test_vectors','test_empt']
    if f in('keypairs.py','utils/utils.py'): T=['test_utils','test_keypairs']
    if f in('mt.py','merkletools.py'): T=['test_mt']
    if f=='proof.py': T=['test_mt','test_mpt','test_empt']
    return T
if __name__=='__main__':
    W=int(sys.argv[1]); files=sys.argv[2:] or FILES
    jobs=queue.Queue()
    n=0
    for f in files:
        s=open(SRC+'/pymt/'+f,'rb').read().replace(b'\r\n',b'\n').decode()
        for i,m in enumerate(mutants(s)): jobs.put((f,i,m)); n+=1
    print(n,'mutants',flush=True)
    lock=threading.Lock(); cnt=[0,0]
    def work(w):
        d='/tmp/w/mut/w%d'%w
        shutil.rmtree(d,ignore_errors=True); shutil.copytree(SRC,d+'/src')
        while True:
            try: f,i,m=jobs.get_nowait()
            except queue.Empty: break
            p=d+'/src/pymt/'+f; orig=open(p,'rb').read()
            open(p,'w').write(m[2])
            try:
                r=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','--timeout=60']+[d+'/src/pymt/tests/%s.py'%t for t in tests(f)],cwd=d,env=dict(os.environ,PYTHONPATH=d+'/src',PYTHONDONTWRITEBYTECODE='1'),capture_output=True,text=True,timeout=120).returncode
            except subprocess.TimeoutExpired: r=9
            open(p,'wb').write(orig)
            with lock:
                cnt[0]+=1
                if r==0:
                    cnt[1]+=1
                    open('/tmp/w/mut/surv.jsonl','a').write(json.dumps(dict(file=f,i=i,line=m[0],kind=m[1],src=m[2],old=m[3],new=m[4]))+'\n')
                if cnt[0]%50==0: print(cnt,flush=True)
        shutil.rmtree(d,ignore_errors=True)
    ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
    [t.start() for t in ts];[t.join() for t in ts]
    print('done',cnt)
