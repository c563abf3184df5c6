"""dev: hand.py [FILE…] [--checks …]: hand-written behaviour-preserving rewrites (dev/hand/*.py) must stay quiet.
A file has sections '# file: PATH'; a class in it replaces/extends methods of that class, a function replaces the function."""
import ast, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
import refac

def apply(d, text):
    for sec in text.split("# file: ")[1:]:
        path, _, body = sec.partition("\n")
        p = os.path.join(d, "repo", path.strip())
        t = ast.parse(open(p).read())
        new = ast.parse(body)
        for s in new.body:
            if isinstance(s, ast.ClassDef):
                c = next(x for x in t.body if isinstance(x, ast.ClassDef) and x.name == s.name)
                for m in s.body:
                    nm = getattr(m, "name", None)
                    ds = [ast.unparse(x) for x in getattr(m, "decorator_list", [])]
                    i = [k for k, x in enumerate(c.body) if isinstance(x, ast.FunctionDef) and x.name == nm]
                    if i:
                        if not ds: m.decorator_list = c.body[i[-1]].decorator_list
                        c.body[i[-1]] = m
                        for k in i[:-1][::-1]: pass
                    else:
                        c.body.append(m)
            elif isinstance(s, ast.FunctionDef):
                i = [k for k, x in enumerate(t.body) if isinstance(x, ast.FunctionDef) and x.name == s.name]
                if i: t.body[i[0]] = s
                else: t.body.append(s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                t.body.insert(0, s)
            else:
                t.body.append(s)
        open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")

if __name__ == "__main__":
    a = sys.argv[1:]; checks = None
    if "--checks" in a:
        i = a.index("--checks"); checks = a[i + 1].split(","); a = a[:i]
    here = os.path.dirname(os.path.abspath(__file__)) + "/hand"
    for f in a or sorted(os.listdir(here)):
        f = os.path.basename(f)
        if not f.endswith(".py"): continue
        d = tempfile.mkdtemp(prefix="hand", dir="/tmp")
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("__pycache__", ".git"))
        apply(d, open(os.path.join(here, f)).read())
        print("==", f, *refac.tests(d), flush=True)
        refac.report(d, checks or refac.claimed())
        shutil.rmtree(d)
