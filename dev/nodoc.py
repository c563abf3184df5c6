import ast,sys
src=open(sys.argv[1]).read()
t=ast.parse(src)
kill=set()
for n in ast.walk(t):
    if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
        e=n.body[0]
        kill|=set(range(e.lineno,e.end_lineno+1))
for i,l in enumerate(src.split('\n'),1):
    if i not in kill and l.strip(): print(f"{i:5d} {l}")
