import sys, ast, importlib
sys.path.insert(0,__file__.rsplit('/',3)[0]+'/analysis'); sys.path.insert(0,__file__.rsplit('/',1)[0])
import core
from core import *
import engine
P=core.Program(core.REPO_SRC)
def topy(I,v,seen=0):
    if isinstance(v,(int,str,bytes,float,bool,type(None))): return v
    if isinstance(v,tuple): return tuple(topy(I,x) for x in v)
    if isinstance(v,List): return [topy(I,x) for x in v.items]
    if isinstance(v,Dict): return {topy(I,k):topy(I,x) for k,x in v.pairs()}
    if type(v).__name__=='SetV' or type(v).__name__=='Set': return set(topy(I,x) for x in I.iterate(v))
    if isinstance(v,BArr): return bytearray(topy(I,v.val))
    return v
mods=sys.argv[1:] or ['snip1']
bad=0;n=0
for mn in mods:
    for k,src in enumerate(importlib.import_module(mn).S):
        n+=1
        ns={"__name__":"user"}
        exec(compile(src,"<s>","exec"),ns)
        try: want=ns["run"]()
        except Exception as e: print(mn,k,"CPYTHON",repr(e)); continue
        tree=ast.parse(src)
        def body(I):
            m=ModuleV("user","<snippet>",False); m.ns["__name__"]="user"
            fr=engine.Frame(None,m); fr.vars=m.ns
            I.exec_block(tree.body,fr)
            return topy(I,I.call(m.ns["run"],[],{}))
        try:
            outs=list(explore(P,body,limit=10))
        except Exception as e:
            import traceback; print(mn,k,"ANALYSER ERROR",traceback.format_exc()[-600:]); bad+=1; continue
        for o in outs:
            if o.kind!="ok": print(mn,k,o.kind,(o.why or excs(o.exc)+" "+render(o.exc.attrs.get("args",""))) [:300]); bad+=1; break
            if o.value!=want:
                bad+=1
                if isinstance(want,(list,tuple)) and isinstance(o.value,(list,tuple)) and len(want)==len(o.value):
                    print(mn,k,"DIFF",[(i,a,b) for i,(a,b) in enumerate(zip(o.value,want)) if a!=b][:6])
                else: print(mn,k,"DIFF",o.value,want)
                break
        if len(outs)!=1: print(mn,k,"partitions",len(outs))
print(n,"snippets",bad,"bad")
