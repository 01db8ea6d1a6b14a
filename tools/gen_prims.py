#!/usr/bin/env python3
"""Writes harness/prims.h: the tables of the primitives that the public headers declare."""
import glob,re,os,sys
root=sys.argv[1]; out=[]; tabs={k:[] for k in('block','hash','mac','stream')}
for k in('block','hash','mac','stream','ae'):
    for f in sorted(glob.glob(f'{root}/include/kripto/{k}/*.h')):
        t=open(f).read()
        out.append(f'#include <kripto/{k}/{os.path.basename(f)}>')
        for m in re.finditer(r'const\s+kripto_desc_(\w+)\s*\*\s*const\s+kripto_(\w+?)_(\w+)\s*;',t):
            tabs[m[2]].append(m[3])
print('\n'.join(out)); print('struct prim { const char *name; const void *d; };')
for k,v in tabs.items():
    print(f'static const struct prim p_{k}[] = {{')
    for n in v: print(f'\t{{"{n}", &kripto_{k}_{n}}},')
    print('\t{0, 0}\n};')
