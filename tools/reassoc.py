import ast,sys,glob,os
root=sys.argv[1]; mode=sys.argv[2]
def hasstr(n):
    for x in ast.walk(n):
        if isinstance(x,ast.Constant) and isinstance(x.value,(str,bytes)): return True
        if isinstance(x,(ast.JoinedStr,ast.List,ast.Tuple,ast.ListComp)): return True
        if isinstance(x,ast.Call) and getattr(x.func,'id','') in('str','list','tuple'): return True
    return False
def hascall(n): return any(isinstance(x,(ast.Call,ast.Await,ast.Yield)) for x in ast.walk(n))
def num(n): return (isinstance(n,ast.Constant) and isinstance(n.value,(int,float))) or (isinstance(n,ast.BinOp) and isinstance(n.op,(ast.Mult,ast.Div,ast.Pow,ast.Sub)))
cnt=0
class T(ast.NodeTransformer):
    def visit_JoinedStr(self,n): return n
    def visit_BinOp(self,n):
        global cnt
        self.generic_visit(n)
        if hasstr(n): return n
        L,R=n.left,n.right
        if 'A' in mode and isinstance(n.op,ast.Mult) and isinstance(L,ast.BinOp) and isinstance(L.op,ast.Mult):
            cnt+=1; n=ast.BinOp(L.left,ast.Mult(),ast.BinOp(L.right,ast.Mult(),R)); L,R=n.left,n.right
        if 'D' in mode and isinstance(n.op,ast.Div) and isinstance(L,ast.BinOp) and isinstance(L.op,ast.Div):
            cnt+=1; n=ast.BinOp(L.left,ast.Div(),ast.BinOp(L.right,ast.Mult(),R)); L,R=n.left,n.right
        if 'M' in mode and isinstance(n.op,ast.Div) and isinstance(L,ast.BinOp) and isinstance(L.op,ast.Mult):
            cnt+=1; n=ast.BinOp(L.left,ast.Mult(),ast.BinOp(L.right,ast.Div(),R)); L,R=n.left,n.right
        if 'C' in mode and isinstance(n.op,ast.Mult) and not (hascall(L) and hascall(R)):
            cnt+=1; n=ast.BinOp(R,ast.Mult(),L)
        elif 'C' in mode and isinstance(n.op,ast.Add) and (num(L) or num(R)) and not (hascall(L) and hascall(R)):
            cnt+=1; n=ast.BinOp(R,ast.Add(),L)
        if 'P' in mode and isinstance(n.op,ast.Pow) and isinstance(n.right,ast.Constant) and n.right.value==2 and isinstance(n.left,ast.Name):
            cnt+=1; n=ast.BinOp(n.left,ast.Mult(),n.left)
        return n
for f in sorted(glob.glob(root+'/src/tools21cm/*.py')):
    if os.path.basename(f) in('test_case.py',): continue
    t=ast.parse(open(f).read()); t=ast.fix_missing_locations(T().visit(t)); open(f,'w').write(ast.unparse(t)+'\n')
print('changed',cnt)
