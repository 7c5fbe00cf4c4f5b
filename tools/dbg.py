import sys
sys.path.insert(0,"/verif/analyzer")
from interp import *
p=Program(sys.argv[1]); key=[k for n,k in p.roots if n==sys.argv[2]][0]
n=0
orig=Interp.obligation
def ob(self, st, cond, msg, where):
    global n
    if cond!=T and sys.argv[3] in msg:
        print(msg, where, self.stack(st)[-6:])
        print("cons"); [print("   ",c) for c in st.cons]
        print("sub"); [print("   ",Vars.name[v],v,"=",R) for v,R in st.sub.items()]
        print("bnd"); [print("   ",Vars.name[v],v,b) for v,b in st.bnd.items()]
        vs=set()
        for c in st.cons: vs.update(c.vars())
        for v in vs:
            print("  info",Vars.name[v],v,Vars.info[v],Vars.lo[v],Vars.hi[v],[st.norm(D) for D in Vars.defs[v]])
        for t in self.trace(st)[-25:]: print("   tr",t)
        n+=1
        if n>=int(sys.argv[4]): sys.exit()
    return orig(self,st,cond,msg,where)
Interp.obligation=ob
it=Interp(p,{}); it.run(key)
