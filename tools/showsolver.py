import ast,sys
for n in sys.argv[1:]:
    src=open(f'/repo/solver/{n}.py').read(); t=ast.parse(src); L=src.split('\n')
    print(f'##### {n}')
    for x in t.body:
        if isinstance(x,(ast.Import,ast.ImportFrom)):continue
        if isinstance(x,ast.Expr): continue
        if isinstance(x,ast.ClassDef):
            for y in x.body:
                if isinstance(y,ast.FunctionDef): print('\n'.join(L[y.lineno-1:y.end_lineno]))
                elif isinstance(y,ast.Assign) and y.targets[0].id in('parameters','category'): print('\n'.join(L[y.lineno-1:y.end_lineno]))
        else: print('\n'.join(L[x.lineno-1:x.end_lineno]))
