import random, sys, time
import zp, rig, pyref
from zp import *
from rig import *
rng = random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1)
bad=0; t0=time.time()
for it in range(40):
    qs=[("qa",(2,),True)]
    if rng.random()<.6: qs.append(("qb",rng.choice([(1,),(2,2)]),rng.random()<.6))
    if rng.random()<.3: qs.append(("qc",(1,2),rng.random()<.6))
    ps=[("pa",(2,))] if rng.random()<.6 else []
    lay=make_layout(qs,ps,rng.random()<.7,rng.random()<.5)
    ode=Ode.random(rng,lay["n"],lay["m"],lay["mask"])
    tab=random_tableau(rng)
    N=rng.choice([2,3,5]); h=rng.choice([.5,.25,1.])
    ck=rng.choice(["all","pyrevolve"])
    r=Rig(ode,lay,tab,n_steps=N,h=h,checkpointing=ck,ivc=rng.random()<.3)
    x=[dyadic(rng) for _ in range(lay["n"])]; u=[dyadic(rng) for _ in range(lay["m"])]; t=dyadic(rng)
    r.set_inputs(x,u,t); o,tf=r.run()
    T=tab_json(tab); X=projv(x); Tt=proj(t); H=proj(h); Z=[]
    for k in range(N):
        X,Tt,K,zs=pyref.step(ode,T,X,projv(u),Tt,H); Z.append(zs)
    ok1 = projv(o)==X and proj(tf)==Tt
    dx=[dyadic(rng) for _ in x]; du=[dyadic(rng) for _ in u]; dt=dyadic(rng)
    fo,ft=r.fwd(dx,du,dt)
    D=projv(dx); 
    for k in range(N): D,_=pyref.fwd(ode,T,Z[k],D,projv(du),proj(dt),H)
    ok2 = projv(fo)==D and proj(ft)==proj(dt)
    r.set_inputs(x,u,t); r.run()
    bx=[dyadic(rng) for _ in x]; bt=dyadic(rng)
    rx,ru,rt=r.rev(bx,bt)
    B,BU,BT=projv(bx),[0]*lay["m"],proj(bt)
    for k in reversed(range(N)): B,BU,BT=pyref.rev(ode,T,Z[k],B,BU,BT,H)
    ok3 = projv(rx)==B and projv(ru)==BU and proj(rt)==BT
    if not(ok1 and ok2 and ok3): bad+=1; print(it,ok1,ok2,ok3,ck,N,lay["split"],tab["kind"])
print("bad",bad,time.time()-t0)
