#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.in.md, the checks' rules, the last evidence and seeded/"""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(V+'/sim/harness/src/props/mod.rs').read()
orac={
'C01':'values in the generated model (strings, scripts, canvases, sounds, raw bytes), also for each file opened alone',
'C02':'children list of the model at every state seen with `is_parsed`, one parse per load (pointer identity of handles)',
'C03':"the simulator's lock table: some task must be able to run until all have finished",
'C04':'following of links in the model; pixels of the target; full tree compared afterwards',
'C05':'what the parsed tree holds by the model; not-found otherwise',
'C06':'returns within CPU and memory bounds, no panic/signal; an untouched file reads fully afterwards',
'C07':'snapshot of the node before the failed load; the model after healing; mappings counted',
'C08':'the model for everything outside the damaged bytes',
'C09':'the merged model tree, or an error if a needed call failed',
'C10':"the sound's generated bytes on disk / in the writer; prefix rule after a failure",
'C11':'an independent pixel decoder',
'C12':'fingerprint of the file opened alone in a fresh fork of the process',
'C13':'the model after every step (single thread), or at every quiescent point and for every value read (several)',
'C14':'merge of the models; parents, handles, emptiness of the source; every intermediate state',
'C15':'values by the model; weak references to every node and reader; descriptors and mappings at the syscall seam',
'C16':'no lock held after the failure; everything re-read, unloaded, reloaded by the model',
'C18':'paths, ancestors, relatives and prints computed from the generated tree; pointer identity of nodes; the JSON read back and printed again',
'C19':'the oracle of the workload drawn, and the order of the model at every listing compared',
}
rows=[]
for c in sorted(orac):
    r=re.search(r'"%s" => "(.*?)",\n'%c,src).group(1).split('; non-trivial')[0]
    try: n=f"{json.load(open(f'{V}/evidence/{c}.json'))['coverage']['evaluations']//1000}k"
    except Exception: n='?'
    rows.append(f"| {c} | {r} | {orac[c]} | {n} |")
bugs=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    bugs.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t=open(V+'/tools/design.in.md').read().replace('@TABLE@','\n'.join(rows)).replace('@BUGS@','\n'.join(bugs))
open(V+'/DESIGN.md','w').write(t)
