import ast, sys, os, copy
mode, root = sys.argv[1], sys.argv[2]

def locals_of(fn):
    names=set(); glob=set()
    for n in ast.walk(fn):
        if isinstance(n,(ast.Global,ast.Nonlocal)): glob|=set(n.names)
        if isinstance(n,ast.Name) and isinstance(n.ctx,(ast.Store,ast.Del)): names.add(n.id)
        if isinstance(n,ast.ExceptHandler) and n.name: names.add(n.name)
    args={a.arg for a in fn.args.args+fn.args.kwonlyargs}
    for a in (fn.args.vararg,fn.args.kwarg):
        if a: args.add(a.arg)
    return names-glob-args

class Rename(ast.NodeTransformer):
    """rename local variables (functions without nested functions)"""
    def visit_FunctionDef(self,fn):
        if any(isinstance(n,(ast.FunctionDef,ast.Lambda)) for n in ast.walk(fn) if n is not fn):
            return fn
        names=locals_of(fn)
        for n in ast.walk(fn):
            if isinstance(n,ast.Name) and n.id in names: n.id='the_'+n.id
            if isinstance(n,ast.ExceptHandler) and n.name in names: n.name='the_'+n.name
        return fn

class Helper(ast.NodeTransformer):
    """move the body of each method/function into a helper"""
    def do(self, body, method):
        out=[]
        for st in body:
            if isinstance(st,ast.ClassDef):
                st.body=self.do(st.body,True); out.append(st); continue
            if isinstance(st,ast.FunctionDef) and not st.args.kwonlyargs and not any(isinstance(n,(ast.Yield,)) for n in ast.walk(st)) and not any(isinstance(n,ast.Name) and n.id in('super','inspect','__class__') for n in ast.walk(st)) and len([s for s in st.body])>1 and not any(isinstance(n, ast.Call) and getattr(n.func,'attr','') in('stack','currentframe') for n in ast.walk(st)):
                name='_do_'+st.name.strip('_')
                h=copy.deepcopy(st); h.name=name if not method else '_do_%s_%d'%(st.name.strip('_'),st.lineno)
                name=h.name
                static=[d for d in st.decorator_list if isinstance(d,ast.Name) and d.id in('staticmethod','classmethod')]
                h.decorator_list=static if False else []
                if static: out.append(st); continue
                h.args.defaults=[]; 
                doc=[]
                if isinstance(st.body[0],ast.Expr) and isinstance(st.body[0].value,ast.Constant):
                    doc=[st.body[0]]; h.body=h.body[1:]
                a=[x.arg for x in st.args.args]
                if method:
                    f=ast.Attribute(ast.Name(a[0],ast.Load()),name,ast.Load()); pos=a[1:]
                else:
                    f=ast.Name(name,ast.Load()); pos=a
                call=ast.Call(f,[ast.Name(x,ast.Load()) for x in pos],[])
                if st.args.vararg: call.args.append(ast.Starred(ast.Name(st.args.vararg.arg,ast.Load()),ast.Load()))
                if st.args.kwarg: call.keywords.append(ast.keyword(None,ast.Name(st.args.kwarg.arg,ast.Load())))
                st=copy.deepcopy(st); st.body=doc+[ast.Return(call)]
                out.append(h); out.append(st); continue
            out.append(st)
        return out
    def visit_Module(self,m):
        m.body=self.do(m.body,False); return m

class NegIf(ast.NodeTransformer):
    def visit_If(self,n):
        self.generic_visit(n)
        if n.orelse and not(len(n.orelse)==1 and isinstance(n.orelse[0],ast.If)):
            n.test=ast.UnaryOp(ast.Not(),n.test); n.body,n.orelse=n.orelse,n.body
        elif not n.orelse and isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.And):
            t=n.test.values
            inner=n.body
            for c in reversed(t): inner=[ast.If(c,inner,[])]
            return inner[0]
        elif not n.orelse and isinstance(n.test,ast.BoolOp) and isinstance(n.test.op,ast.Or):
            n.test=ast.UnaryOp(ast.Not(),ast.BoolOp(ast.And(),[ast.UnaryOp(ast.Not(),v) for v in n.test.values]))
        return n

class RetVar(ast.NodeTransformer):
    def visit_Return(self,n):
        if n.value is None or isinstance(n.value,ast.Name): return n
        return [ast.Assign([ast.Name('result_value',ast.Store())],n.value,lineno=1),ast.Return(ast.Name('result_value',ast.Load()))]
    def visit_Lambda(self,n): return n

class Comp(ast.NodeTransformer):
    """x = [comp] / {comp} -> loop; sum/any/all left"""
    def visit_Assign(self,n):
        v=n.value
        if len(n.targets)==1 and isinstance(v,(ast.ListComp,ast.DictComp)) and len(v.generators)==1 and isinstance(n.targets[0],ast.Name):
            tgt=n.targets[0].id
            # avoid using target in the generator
            if any(isinstance(x,ast.Name) and x.id==tgt for x in ast.walk(v)): return n
            g=v.generators[0]
            if isinstance(v,ast.ListComp):
                init=ast.List([],ast.Load()); act=ast.Expr(ast.Call(ast.Attribute(ast.Name(tgt,ast.Load()),'append',ast.Load()),[v.elt],[]))
            else:
                init=ast.Dict([],[]); act=ast.Assign([ast.Subscript(ast.Name(tgt,ast.Load()),v.key,ast.Store())],v.value,lineno=1)
            body=[act]
            for c in reversed(g.ifs): body=[ast.If(c,body,[])]
            return [ast.Assign([ast.Name(tgt,ast.Store())],init,lineno=1),ast.For(g.target,g.iter,body,[],lineno=1)]
        return n

class Loop(ast.NodeTransformer):
    """for x in it -> while with an iterator; .items() -> keys"""
    k=0
    def visit_For(self,n):
        self.generic_visit(n)
        if n.orelse: return n
        Loop.k+=1
        it='_it%d'%Loop.k; item='_item%d'%Loop.k
        return [ast.Assign([ast.Name(it,ast.Store())],ast.Call(ast.Name('iter',ast.Load()),[n.iter],[]),lineno=1),
          ast.While(ast.Constant(True),[
            ast.Try([ast.Assign([copy.deepcopy(n.target)],ast.Call(ast.Name('next',ast.Load()),[ast.Name(it,ast.Load())],[]),lineno=1)],
              [ast.ExceptHandler(ast.Name('StopIteration',ast.Load()),None,[ast.Break()])],[],[])]+n.body,[])]

class Items(ast.NodeTransformer):
    """for k, v in d.items() -> for k in list(d.keys()): v = d[k];  k in d.keys() -> k in d"""
    def visit_For(self,n):
        self.generic_visit(n)
        if isinstance(n.iter,ast.Call) and isinstance(n.iter.func,ast.Attribute) and n.iter.func.attr=='items' and isinstance(n.target,ast.Tuple) and len(n.target.elts)==2 and isinstance(n.iter.func.value,ast.Name) and isinstance(n.target.elts[0],ast.Name) and n.iter.func.value.id not in {x.id for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}:
            d=n.iter.func.value
            k,v=n.target.elts
            n.iter=ast.Call(ast.Name('list',ast.Load()),[ast.Call(ast.Attribute(d,'keys',ast.Load()),[],[])],[])
            n.target=k
            n.body.insert(0,ast.Assign([v],ast.Subscript(d,ast.Name(k.id,ast.Load()),ast.Load()),lineno=1))
        return n
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)==1 and isinstance(n.ops[0],(ast.In,ast.NotIn)):
            c=n.comparators[0]
            if isinstance(c,ast.Call) and isinstance(c.func,ast.Attribute) and c.func.attr=='keys' and not c.args and 'alias' not in ast.unparse(c) and 'constants' not in ast.unparse(c):
                n.comparators=[c.func.value]
            if isinstance(n.ops[0],ast.NotIn):
                n.ops=[ast.In()]
                return ast.UnaryOp(ast.Not(),n)
        return n

class Args(ast.NodeTransformer):
    """hoist the arguments of calls in simple statements into temporaries"""
    k=0
    def stmt(self,n):
        v=n.value
        if isinstance(v,ast.Call) and v.args and not any(isinstance(a,ast.Starred) for a in v.args) and isinstance(v.func,(ast.Name,ast.Attribute)) and not(isinstance(v.func,ast.Attribute) and not isinstance(v.func.value,ast.Name)) and not (isinstance(v.func,ast.Name) and v.func.id in('super',)):
            pre=[]
            for i,a in enumerate(v.args):
                if isinstance(a,(ast.Constant,ast.Name,ast.Lambda)): continue
                Args.k+=1
                t='_tmp%d'%Args.k
                pre.append(ast.Assign([ast.Name(t,ast.Store())],a,lineno=1)); v.args[i]=ast.Name(t,ast.Load())
            return pre+[n]
        return n
    def visit_Assign(self,n): return self.stmt(n)
    def visit_Expr(self,n): return self.stmt(n)
    def visit_Return(self,n): return self.stmt(n) if n.value else n

class Unary(ast.NodeTransformer):
    """a*b -> b*a for numbers?; x is not None -> not (x is None); a<b -> b>a ; f-strings"""
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)==1:
            sw={ast.Lt:ast.Gt,ast.Gt:ast.Lt,ast.LtE:ast.GtE,ast.GtE:ast.LtE,ast.Eq:ast.Eq,ast.NotEq:ast.NotEq}
            t=type(n.ops[0])
            if t in sw:
                n.left,n.comparators=n.comparators[0],[n.left]; n.ops=[sw[t]()]
            elif t is ast.IsNot:
                n.ops=[ast.Is()]; return ast.UnaryOp(ast.Not(),n)
        return n
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Mult) and not any(isinstance(x,(ast.List,ast.Tuple)) or (isinstance(x,ast.Constant) and isinstance(x.value,str)) for x in (n.left,n.right)) :
            n.left,n.right=n.right,n.left
        return n
    def visit_Dict(self,n): return self.generic_visit(n)
M=dict(plain=[],rename=[Rename],helper=[Helper],negif=[NegIf],retvar=[RetVar],comp=[Comp],loop=[Loop],items=[Items],args=[Args],unary=[Unary],all=[Rename,NegIf,RetVar,Comp,Items,Args,Unary,Helper])
for d,_,fs in os.walk(os.path.join(root,'sympl')):
    for f in fs:
        if f.endswith('.py') and f not in('_version.py',):
            p=os.path.join(d,f); t=ast.parse(open(p).read())
            for T in M[mode]: t=T().visit(t)
            ast.fix_missing_locations(t); open(p,'w').write(ast.unparse(t)+'\n')
