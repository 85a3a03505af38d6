"""t3.py PROP [v] [function]: details of a proof attempt"""
import sys,time,collections
import repo, parser, z3, houdini, props, props2
R=repo.Repo()
P=props.PROPS[sys.argv[1]](R)
X=parser.Explorer(R, P.roles, P.errroles)
t=time.time()
X.explore()
print("explore",time.time()-t, X.total_paths); t=time.time()
H=houdini.Houdini(X,P,log=print)
if len(sys.argv)>3: H.why=[]
out=H.run()
seen=set()
for w in sorted(H.why or (), key=lambda w: w[-1]):
    if sys.argv[3] in w[2] or sys.argv[3]==w[1][0].split(".")[-1] and (w[1],w[2]) not in seen:
        seen.add((w[1],w[2])); print("DROP",w[0],w[1][0].split(".")[-1],w[1][1],w[1][2][:1],w[2],"| in",w[3][0].split(".")[-1] if w[3]!="root" else "root",w[4],"round",w[5:])

print("houdini",time.time()-t,"queries",H.queries,"cand",H.ncand,"kept",H.kept,collections.Counter(o[4] for o in out))
if len(sys.argv)>2 and sys.argv[2]=='v':
  for k in H.pre:
    kk=k;print(k[0].split(".")[-1],k[1]);
    print("   PRE",[x for x in sorted(H.pre[k]) if "element" not in x and "order" not in x and "before" not in x]); print("   POST",[x for x in sorted(H.post[k]) if "element" not in x and "order" not in x])
seen=set()
for o in [o for o in out if o[4]!="ok"]:
    if (o[0],o[1],o[3]) in seen: continue
    seen.add((o[0],o[1],o[3])); print(o)
