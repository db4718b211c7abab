"""Print a source file with line numbers, without docstrings/comments (reading aid)."""
import ast, sys, re
f=sys.argv[1]; a=int(sys.argv[2]) if len(sys.argv)>2 else 1; b=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
src=open(f).read(); lines=src.split('\n'); drop=set()
for node in ast.walk(ast.parse(src)):
    if isinstance(node,(ast.FunctionDef,ast.ClassDef,ast.Module)) and node.body and isinstance(node.body[0],ast.Expr) and isinstance(getattr(node.body[0],'value',None),ast.Constant) and isinstance(node.body[0].value.value,str):
        for l in range(node.body[0].lineno,node.body[0].end_lineno+1): drop.add(l)
for i,l in enumerate(lines,1):
    if i<a or i>b or i in drop or not l.strip() or re.match(r'\s*#',l): continue
    print(i,l.rstrip())
