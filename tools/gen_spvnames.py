#!/usr/bin/env python3
"""enumerant names declared by the library's Spv.h / Glsl.h / OpenCl.h -> table of (kind, name, value) that the compiler evaluates"""
import re, sys, os
repo, out = sys.argv[1], sys.argv[2]
inc = repo + '/lib/include/spvgentwo/'
def strip(t): return re.sub(r'/\*.*?\*/', '', re.sub(r'//[^\n]*', '', t), flags=re.S)
rows = []
for fn, ns, pre in (('Spv.h', 'spvgentwo::spv', ''), ('Glsl.h', 'spvgentwo::glslstd450', 'glsl:'), ('OpenCl.h', 'spvgentwo::opencl', 'opencl:')):
    try: t = strip(open(inc + fn, errors='replace').read().replace('\r',''))
    except OSError: continue
    m = re.search(r'namespace\s+([\w:]+)', t)
    if m: ns = m.group(1)
    for e in re.finditer(r'enum\s+class\s+(\w+)\s*(?::\s*[\w ]+?)?\s*\{(.*?)\}', t, re.S):
        for n in re.finditer(r'(\w+)\s*(?==|,|$)', re.sub(r'=[^,]*', '=', e.group(2))):
            rows.append('{"%s%s","%s",(unsigned)%s::%s::%s},' % (pre, e.group(1), n.group(1), ns, e.group(1), n.group(1)))
s = 'struct LibEnum { const char* kind; const char* name; unsigned value; };\ninline const std::vector<LibEnum>& libEnums() { static const std::vector<LibEnum> v = {\n' + '\n'.join(rows) + '\n}; return v; }\n'
old = open(out).read() if os.path.exists(out) else None
if old != s: open(out, 'w').write(s)
