#!/usr/bin/env python3
"""b.py driver scen[,scen] [-f asan,chaos,tsan,plain,qt] [-n seeds] [-c cases] [-t 0,1,2,8] [-m 0,1,2,3,4] [-k NAME=V] [-l detail]"""
import sys, argparse, os, concurrent.futures as cf, collections, time
sys.dont_write_bytecode=True
sys.path.insert(0,'/verif/vlib')
import engine, build
a=argparse.ArgumentParser()
a.add_argument('driver'); a.add_argument('scen'); a.add_argument('-f',default='asan,chaos,tsan,qt'); a.add_argument('-n',type=int,default=2)
a.add_argument('-c',type=int,default=4); a.add_argument('-t',default='0,1,2,8'); a.add_argument('-m',default='0,1,2,3,4'); a.add_argument('-k',action='append',default=[])
a.add_argument('-l',type=int,default=700); a.add_argument('-j',type=int,default=7); a.add_argument('--leaks',action='store_true'); a.add_argument('--scale',type=int,default=100); a.add_argument('--base',type=int,default=100)
o=a.parse_args()
b=build.Builder(); exes={}
for f in o.f.split(','):
    fl,qt=(f,False) if not f.startswith('qt') else ((f[2:] or 'asan'),True)
    exes[f]=(b.program(o.driver,fl,qt),fl,qt)
for f in exes:
    try: exes[f]=(exes[f][0](),)+exes[f][1:]
    except build.BuildError as e:
        import re
        print('\n'.join(l for l in str(e).splitlines() if 'error' in l or 'required from here' in l)[:3000]); sys.exit(1)
jobs=[]
for s in o.scen.split(','):
  for f,(exe,fl,qt) in exes.items():
    for n in range(o.n):
      for m in o.m.split(','):
        for t in o.t.split(','):
          if qt and t=='8': continue
          seed=o.base+n*17+int(m)*3+int(t)
          env={}
          if int(m): env['VH_DELAY']=f'{m}:{seed}:6000'
          if int(t): env['XDISPATCH2_THREAD_COUNT']=t
          if fl=='chaos': env.update(VH_WEAK='5',VH_WAKE='7')
          for k in o.k:
            x,y=k.split('=',1); env[x]=y
          jobs.append((exe,dict(driver=o.driver,flavour=fl,qt=qt,backend='qt5' if qt else 'naive',scenario=s,seed=seed,cases=o.c,env=env,scale=o.scale,leaks=o.leaks)))
seen=collections.OrderedDict(); walls=collections.defaultdict(list); st=collections.Counter()
def one(j):
    exe,r=j
    return r,engine.execute(exe,r,200)
with cf.ThreadPoolExecutor(o.j) as ex:
    for r,res in ex.map(one,jobs):
        walls[(r['scenario'],r['flavour']+('-qt' if r['qt'] else ''))].append(res.wall)
        if res.timeout: res.violations.append(('TIMEOUT',res.stderr[-500:]))
        for k,d in res.violations:
            key=(r['scenario'],r['flavour']+('-qt' if r['qt'] else ''),k)
            seen.setdefault(key,[0,engine.describe(r),d]); seen[key][0]+=1
for k,w in walls.items(): print('%-40s n=%d avg=%.2fs max=%.1fs'%('/'.join(k),len(w),sum(w)/len(w),max(w)))
for k,(n,d,det) in seen.items(): print('!!',n,'x','/'.join(k),'\n   ',d,'\n   ',det[:o.l])
