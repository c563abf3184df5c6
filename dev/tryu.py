"""like try.py but prints the undecided reasons"""
import sys, json, glob, shutil
sys.argv[0]="x"
sys.path.insert(0,"/verif/dev")
import importlib.util
spec=importlib.util.spec_from_file_location("t","/verif/dev/try.py"); t=importlib.util.module_from_spec(spec); spec.loader.exec_module(t)
d=t.scratch(); a=sys.argv[2:]
while a:
    f,old,new=a[:3]; a=a[3:]
    p=d+"/dynetworkx/"+f; s=open(p).read()
    old=old.encode().decode("unicode_escape"); new=new.encode().decode("unicode_escape")
    assert old in s, old
    open(p,"w").write(s.replace(old,new,1))
for pid in sys.argv[1].split(","):
    rc,o,e=t.run(pid,d); print(pid,rc,o[:800],e[-300:])
    j=json.load(open(d+"/ev/%s.json"%pid))
    for k,v in list(j["coverage"]["undecided_reasons"].items())[:12]: print("   U",v,k)
shutil.rmtree(d)
