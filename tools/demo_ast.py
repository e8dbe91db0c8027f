"""Builders of small compiler ASTs and a runner of the tool, for the demonstrations."""
import json, os, subprocess, itertools
_i = itertools.count(1)
def N(t, **k):
    i = next(_i)
    return dict(id=i, nodeType=t, src="0:0:0", **k)
def ident(n, t="uint256"): return N("Identifier", name=n, overloadedDeclarations=[], referencedDeclaration=1, typeDescriptions=dict(typeIdentifier="t_"+t, typeString=t))
def num(v): return N("Literal", kind="number", value=str(v), hexValue="", typeDescriptions=dict(typeIdentifier="t_r", typeString="int_const "+str(v)), isConstant=False, isLValue=False, isPure=True, lValueRequested=False)
def string(v): return N("Literal", kind="string", value=v, hexValue=v.encode().hex(), typeDescriptions=dict(typeIdentifier="t_s", typeString='literal_string "%s"' % v), isConstant=False, isLValue=False, isPure=True, lValueRequested=False)
def td(t="uint256"): return dict(typeIdentifier="t_"+t, typeString=t)
def binop(a, op, b, t="uint256"): return N("BinaryOperation", leftExpression=a, operator=op, rightExpression=b, commonType=td(), typeDescriptions=td(t), isConstant=False, isLValue=False, isPure=False, lValueRequested=False)
def unop(op, e, prefix=True): return N("UnaryOperation", operator=op, prefix=prefix, subExpression=e, typeDescriptions=td())
def assign(a, op, b): return N("Assignment", leftHandSide=a, operator=op, rightHandSide=b, typeDescriptions=td())
def paren(*c): return N("TupleExpression", components=list(c), isInlineArray=False, typeDescriptions=td())
def call(f, args, names=None, kind="functionCall"): return N("FunctionCall", expression=f, arguments=args, names=names or [], kind=kind, tryCall=False, typeDescriptions=td())
def member(e, n): return N("MemberAccess", expression=e, memberName=n, typeDescriptions=td())
def stmt(e): return N("ExpressionStatement", expression=e)
def ret(e=None):
    r = N("Return", functionReturnParameters=1)
    if e is not None: r["expression"] = e
    return r
def block(*s): return N("Block", statements=list(s))
def iff(c, t, f=None):
    r = N("IfStatement", condition=c, trueBody=t)
    if f is not None: r["falseBody"] = f
    return r
def ty(n="uint256"): return N("ElementaryTypeName", name=n, typeDescriptions=td(n))
def var(n, t="uint256", state=False, **k):
    d = dict(name=n, typeName=ty(t), stateVariable=state, constant=False, mutability="mutable", storageLocation="default", visibility="internal", typeDescriptions=td(t))
    d.update(k)
    return N("VariableDeclaration", **d)
def params(*v): return N("ParameterList", parameters=list(v))
def func(name, body, ps=(), rets=(), **k):
    d = dict(name=name, body=body, kind="function", implemented=True, modifiers=[], parameters=params(*ps), returnParameters=params(*rets), stateMutability="nonpayable", virtual=False, visibility="public", scope=1)
    d.update(k)
    return N("FunctionDefinition", **d)
def contract(name, *nodes, **k):
    d = dict(name=name, nodes=list(nodes), abstract=False, baseContracts=[], contractKind="contract", contractDependencies=[], fullyImplemented=True, linearizedBaseContracts=[], scope=1)
    d.update(k)
    return N("ContractDefinition", **d)
def unit(*nodes): return N("SourceUnit", absolutePath="a.sol", exportedSymbols={}, nodes=[N("PragmaDirective", literals=["solidity", "^", "0.8", ".13"])] + list(nodes))
# ---- Vyper
def V(t, **k):
    i = next(_i)
    return dict(ast_type=t, node_id=i, lineno=1, col_offset=0, end_lineno=1, end_col_offset=0, src="0:0:0", **k)
def vname(n): return V("Name", id=n)
def vint(n): return V("Int", value=n)
def vbin(a, op, b): return V("BinOp", left=a, op=V(op), right=b)
def vcmp(a, op, b): return V("Compare", left=a, op=V(op), right=b)
def vassign(t, e): return V("Assign", target=t, value=e)
def vret(e): return V("Return", value=e)
def vcall(f, *a): return V("Call", func=f, args=list(a), keywords=[])
def vattr(e, n): return V("Attribute", value=e, attr=n)
def vif(t, body, orelse=()): return V("If", test=t, body=list(body), orelse=list(orelse))
def vfunc(name, body, args=(), decorators=("external",), returns=None):
    return V("FunctionDef", name=name, body=list(body), args=V("arguments", args=[V("arg", arg=a, annotation=vname(t)) for a, t in args], defaults=[], default=None), decorator_list=[vname(d) for d in decorators], returns=returns, doc_string=None, pos=None)
def vmodule(*body): return dict(contract_name="a.vy", ast=V("Module", name="", doc_string=None, body=list(body)))

def write(p, o):
    with open(p, "w") as f: json.dump(o, f)
def run(*a, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run([os.environ["BIN"], *a], capture_output=True, text=True, timeout=120, env=e)
    return r.stdout
def pp(ast):
    write("in_ast.json", ast)
    out = run("pretty-print", "--stdout", "-f", "in_ast.json")
    return "\n".join(l for l in out.splitlines() if not l.startswith("Elapsed time"))
def flat(t): return " ".join(t.split())
# ---- stand-in compilers: bin/solc and bin/vyper; the AST of source x is in x.ast; calls are recorded in calls.log
_CC = r'''#!/usr/bin/env python3
import sys, os, json, shutil
me = os.path.basename(sys.argv[0]); a = sys.argv[1:]; here = os.path.dirname(os.path.dirname(os.path.abspath(sys.argv[0])))
src = [x for x in a if os.path.isfile(x)]
text = open(src[-1], errors="replace").read() if src else ""
with open(os.path.join(here, "calls.log"), "a") as f: f.write(json.dumps([me, a, text]) + "\n")
if "--version" in a:
    print("0.3.7+commit.6020b8b"); sys.exit(0)
if not src: sys.exit(1)
ast = "--ast-compact-json" in a or ("-f" in a and a[a.index("-f") + 1] == "ast")
if ast:
    s = os.path.join(here, "asts", me + "-" + os.path.basename(src[-1]))
    if not os.path.exists(s): sys.exit(1)
    if me == "vyper":
        sys.stdout.write(open(s).read())
    else:
        d = a[a.index("-o") + 1]; os.makedirs(d, exist_ok=True)
        shutil.copy(s, os.path.join(d, os.path.basename(src[-1]) + "_json.ast"))
    sys.exit(0)
for w in open(os.path.join(here, "reject")).read().split("\n"):
    if w and w in text: sys.exit(1)
sys.exit(0)
'''
def compilers(reject=()):
    """Puts the stand-in compilers first on the PATH; they reject programs that contain one of the given texts."""
    os.makedirs("bin", exist_ok=True); os.makedirs("asts", exist_ok=True)
    for n in ("solc", "vyper"):
        with open("bin/" + n, "w") as f: f.write(_CC)
        os.chmod("bin/" + n, 0o755)
    with open("reject", "w") as f: f.write("\n".join(reject))
    os.environ["PATH"] = os.path.abspath("bin") + os.pathsep + os.environ["PATH"]
def source(path, ast, lang="solc"):
    """A source file that compiles to the AST."""
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w") as f: f.write("source\n")
    write("asts/%s-%s" % (lang, os.path.basename(path)), ast)
def calls():
    try: return [json.loads(l) for l in open("calls.log")]
    except FileNotFoundError: return []
def tree(d="."):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(b, f), "rb") as h: r[os.path.relpath(os.path.join(b, f), d)] = h.read()
    return r
