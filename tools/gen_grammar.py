#!/usr/bin/env python3
"""official SPIR-V grammar JSON -> C++ tables (build/gen/ogrammar.inc)"""
import json, sys, os
D='/usr/include/spirv/unified1/'
core=json.load(open(D+'spirv.core.grammar.json'))
sets=[('glsl',json.load(open(D+'extinst.glsl.std.450.grammar.json'))),('opencl',json.load(open(D+'extinst.opencl.std.100.grammar.json')))]
def ver(v):
    if v is None: return 0x10000 # permitted from 1.0 on
    if v=='None': return 0xffffffff # only through extensions or capabilities
    a,b=v.split('.'); return int(a)<<16|int(b)<<8
caps={}
for k in core['operand_kinds']:
    if k['kind']=='Capability':
        for e in k['enumerants']: caps[e['enumerant']]=e['value']
def num(v): return int(v,0) if isinstance(v,str) else v
def q(s): return '"'+s.replace('\\','\\\\').replace('"','\\"').replace('\n','\\n')+'"'
def operands(l): return '{'+','.join('{K_%s,\'%s\',%s}'%(o['kind'],o.get('quantifier','1'),q(o.get('name',''))) for o in l)+'}'
def caplist(l): return '{'+','.join(str(caps[c]) for c in l)+'}'
def strs(l): return '{'+','.join(q(x) for x in l)+'}'
out=['// generated from the official grammar']
kinds=[k['kind'] for k in core['operand_kinds']]
out.append('enum OKind : int { '+', '.join('K_'+k for k in kinds)+', K_COUNT };')
out.append('struct OOperand { OKind kind; char quant; const char* name; };')
out.append('struct OInstr { const char* name; uint32_t op; const char* cls; std::vector<OOperand> operands; std::vector<uint32_t> caps; std::vector<const char*> exts; uint32_t version; };')
out.append('struct OEnum { const char* name; uint32_t value; std::vector<OOperand> params; std::vector<uint32_t> caps; std::vector<const char*> exts; uint32_t version; };')
out.append('struct OKindInfo { OKind kind; const char* name; char cat; std::vector<OEnum> enums; std::vector<OKind> bases; };')
body=[]
def instrs(name,l):
    body.append('inline const std::vector<OInstr>& o_%s() { static const std::vector<OInstr> v = {'%name)
    for i in l:
        body.append('{%s,%d,%s,%s,%s,%s,%du},'%(q(i['opname']),i['opcode'],q(i.get('class','')),operands(i.get('operands',[])),caplist(i.get('capabilities',[])),strs(i.get('extensions',[])),ver(i.get('version'))))
    body.append('}; return v; }')
instrs('core',core['instructions'])
for n,g in sets: instrs(n,g['instructions'])
body.append('inline const std::vector<OKindInfo>& o_kinds() { static const std::vector<OKindInfo> v = {')
cat={'BitEnum':'B','ValueEnum':'V','Id':'I','Literal':'L','Composite':'C'}
for k in core['operand_kinds']:
    body.append('{K_%s,%s,\'%s\',{'%(k['kind'],q(k['kind']),cat[k['category']]))
    for e in k.get('enumerants',[]):
        body.append('{%s,%du,%s,%s,%s,%du},'%(q(e['enumerant']),num(e['value']),operands(e.get('parameters',[])),caplist(e.get('capabilities',[])),strs(e.get('extensions',[])),ver(e.get('version'))))
    body.append('},{'+','.join('K_'+b for b in k.get('bases',[]))+'}},')
body.append('}; return v; }')
os.makedirs(sys.argv[1],exist_ok=True)
open(os.path.join(sys.argv[1],'ogrammar.inc'),'w').write('\n'.join(out+body)+'\n')
