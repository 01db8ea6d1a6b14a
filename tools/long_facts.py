#!/usr/bin/env python3
"""Computes spec/LongFacts.tla: chaining values after 2^29 - 256 and 2^32 - 256 bytes of value 90, by TLC from the
definitions of the hash functions (spec/LongRun.tla).  Takes hours: run once; the result is committed.

usage: long_facts.py run NAME 29|32 > FILE       (one value)
       long_facts.py write FILE...               (spec/LongFacts.tla from these)"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kverif
def main():
    if sys.argv[1] == 'run':
        os.makedirs(kverif.B, exist_ok=True)
        rc, out = kverif.tlc(kverif.V + '/spec/LongRun.tla', kverif.V + '/spec/LongRun.cfg', env={'NAME': sys.argv[2], 'CHUNKS': {'29': '8192', '32': '65536'}[sys.argv[3]]}, args=['-workers', '1'], timeout=10 ** 6)
        print(re.search(r'CHAIN\|.*', out)[0])
        return
    F = []
    for f in sorted(sys.argv[2:]):
        m = re.search(r'CHAIN\|(\w+)\|(\d+)\|([^"]*)', open(f).read())
        if m: F.append((m[1], {'8192': 29, '65536': 32}[m[2]], m[3]))
    with open(kverif.V + '/spec/LongFacts.tla', 'w') as o:
        o.write('----------------------------- MODULE LongFacts -----------------------------\n'
                '(* Chaining values after 2^29 - 256 (e = 29) or 2^32 - 256 (e = 32) bytes of value 90; standard parameters.\n'
                '   Written by tools/long_facts.py from runs of LongRun.tla. *)\nEXTENDS Integers\nLongChain(n, e) ==\n    CASE ')
        o.write('TRUE -> <<>>\n' if not F else '      [] '.join(f'n = "{n}" /\\ e = {e} ->\n           {v}\n' for n, e, v in F))
        o.write('=============================================================================\n')
if __name__ == '__main__': main()
