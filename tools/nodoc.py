import ast, sys
t = ast.parse(open(sys.argv[1]).read())
names = sys.argv[2:]
for n in ast.walk(t):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
for n in t.body:
    if isinstance(n, ast.ClassDef) and names and n.name not in names:
        for m in n.body:
            if isinstance(m, ast.FunctionDef) and n.name + "." + m.name in names: print(n.name, ":", ast.unparse(m))
    elif not names or getattr(n, "name", "") in names:
        print(ast.unparse(n))
