import sys; sys.path.insert(0,'/verif/sa')
from run import *; from ev import *; from world import *
R=Run()
def g(c,*es): return R.graph(c,[(e,Attr(w=i+1)) for i,e in enumerate(es)])
def show(o): print(o[:2] if o[0]!='ok' else o[1], '' if o[0]!='ok' or o[1] is not None else o[3])
def t(c,m,st,*a,**k):
    print(c,m,a,k,end=' -> ')
    try: o=R.invoke(c,m,st,a,k); show(o); return o
    except Und as x: print("UND",x)
    except PyErr as x: print("PYERR",x)
for c in ("IntervalGraph","IntervalDiGraph"):
    st=g(c,('a','b',0,4),('b','c',2,6))
    t(c,'degree',st,'b'); t(c,'degree',st); t(c,'degree',st,'b',0,4,True)
    t(c,'to_subgraph',st,0,3,True,True,True,True)
    t(c,'to_subgraph',st,None,None,node_data=True)
    t(c,'to_snapshots',st,2); t(c,'to_snapshots',st,length_of_snapshots=2); t(c,'to_snapshots',st,3,return_length=True)
    t(c,'to_snapshot_graph',st)
    t(c,'add_edge',st,'a','c',1,2,q=1)
    t(c,'add_edges_from',st,[('a','c',1,2),('b','c',2,6)],q=1)
    t(c,'add_node',st,'z',q=1); t(c,'add_nodes_from',st,['z',('y',{'k':1})],q=1)
    t(c,'remove_node',st,'b'); t(c,'remove_node',st,'b',0,1)
    t(c,'from_networkx_graph',{},NX('MultiGraph',{'a':{},'b':{}},[('a','b',{'begin':1,'end':2,'w':1})]))
    sg=R.initial('SnapshotGraph'); sg['snapshots'][(0,1)]=NX('Graph',{},[('a','b',{})]); sg['snapshots'][(1,2)]=NX('Graph',{},[('a','b',{})])
    t(c,'from_snapshot_graph',{},Inst('SnapshotGraph',sg))
    ev=R.evaluator(c,'save_to_txt',st,('p',)); 
    try:
        print(ev.outcome()[:2], ev.writes())
        lines=[w[0] for w in ev.writes()]
        ev=R.evaluator(c,'load_from_txt',{},('p',)); ev.hooks['open']=lines
        print(ev.outcome()[:2])
    except (Und,PyErr) as x: print("UND",x)
for c in ("ImpulseGraph","ImpulseDiGraph"):
    st=g(c,('a','b',0),('b','c',2))
    t(c,'degree',st,'b'); t(c,'degree',st); t(c,'degree',st,'b',0,4,True)
    t(c,'to_subgraph',st,0,3,(True,False),True,True,True,True)
    t(c,'to_snapshots',st,2); t(c,'to_snapshots',st,length_of_snapshots=2)
    t(c,'to_snapshot_graph',st)
    t(c,'add_edge',st,'a','c',1,q=1)
    t(c,'add_edges_from',st,[('a','c',1),('b','c',2)],q=1)
    t(c,'remove_node',st,'b'); t(c,'remove_node',st,'b',0,1)
    t(c,'from_networkx_graph',{},NX('MultiGraph',{'a':{},'b':{}},[('a','b',{'timestamp':1,'w':1})]))
    ev=R.evaluator(c,'save_to_txt',st,('p',))
    try:
        print(ev.outcome()[:2], ev.writes())
        lines=[w[0] for w in ev.writes()]
        ev=R.evaluator(c,'load_from_txt',{},('p',)); ev.hooks['open']=lines
        print(ev.outcome()[:2])
    except (Und,PyErr) as x: print("UND",x)
