import sys; sys.path.insert(0,'/verif/sa')
exec(open('/tmp/d3.py').read().split("for c in (\"IntervalGraph\"")[0])
for c in ("SnapshotGraph","SnapshotDiGraph"):
    def sg(*segs,op=False):
        st=R.initial(c)
        for i,(a,b) in enumerate(segs):
            st['snapshots'][(a,b)]=Opaque('g%d'%i) if op else NX('Graph',{},[('a','b',{'w':i}),('b','n%d'%i,{})])
        return st
    st=sg((0,2),(2,4),(4,6),op=True)
    for m in ('number_of_nodes','order','is_multigraph','is_directed','to_directed','to_undirected','size','degree'):
        t(c,m,st,start=1,end=3); t(c,m,st,sbunch=[0,2])
        t(c,m,st,sbunch=[0,2],start=1)
    t(c,'has_node',st,'x',start=1,end=3); t(c,'has_node',st,'x',[1])
    t(c,'degree',st,nbunch=['x'],start=1,end=3,weight='w')
    t(c,'subgraph',st,['a'],start=1,end=3)
    t(c,'subgraph',st,['a'],sbunch=[1])
    t(c,'add_nodes_from',st,['z'],start=1,end=3,q=1)
    st2=sg((0,2),(2,4),(4,6))
    t(c,'add_nodes_from',st2,['z'],start=1,end=3,q=1)
    t(c,'add_edges_from',st2,[('z','y')],sbunch=[-1],q=1)
    t(c,'add_edges_from',st2,[('z','y')],end=5,q=1)
    t(c,'insert',st,Opaque('n'),start=7,end=9); t(c,'insert',st,Opaque('n'),time=7);t(c,'insert',st,Opaque('n'),9,7);t(c,'insert',st,Opaque('n'))
    t(c,'add_snapshot',st,graph=Opaque('n'),start=7,end=9); t(c,'add_snapshot',st,[('a','b')],time=9)
    t(c,'add_snapshot',st,[('a','b')],start=9)
    t(c,'add_snapshot',st,[('a','b')])
    t(c,'__len__',st);t(c,'__iter__',st);t(c,'__contains__',st,Opaque('g1'))
    t(c,'compute_network_statistic',st,Opaque('F'),start=1,end=3,k=1)
    ev=R.evaluator(c,'save_to_txt',st2,('p',))
    try: print(ev.outcome()[:2], ev.writes())
    except (Und,PyErr) as x: print("UND",x)
