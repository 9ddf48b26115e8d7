#!/usr/bin/env python3
"""Run the check of one property:  run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness and the code from /repo's working tree in a private directory,
runs the search, writes evidence/ID.json.  Exit 0: held; 1: VIOLATION printed; 2: trouble."""
import os, re, sys, json, subprocess, tempfile, shutil, time, signal
V=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,V+'/harness')
import build
GROUP={'T':'term','R':'rec','S':'stream','L':'time','U':'tools'}
ASSUME={
 'term':['code compiled by clang -O1 with AddressSanitizer, array bounds and uninitialised-automatic-variable patterns behaves as the shipped build',
         'the reference terminal in harness/vt.cc states the intended behaviour'],
 'rec':['reference encoders and decoders of the four formats in harness/p_rec.cc state the formats'],
 'stream':['the gzip, bzip2, xz and zstd libraries are right'],
 'time':['schedules are explored at the granularity of allocations, terminal writes and terminal copies'],
 'tools':['signals, clocks and terminals are stood in for by link-time wrappers or pseudo-terminals'],
}
def main():
    a=sys.argv[1:]; pid=a.pop(0)
    tier=os.environ.get('VERIF_TIER','quick'); seed=os.environ.get('VERIF_SEED','1'); replay=None; extra=[]
    while a:
        o=a.pop(0)
        if o=='--tier': tier=a.pop(0)
        elif o=='--seed': seed=a.pop(0)
        elif o=='--replay': replay=os.path.abspath(a.pop(0))
        else: extra.append(o)
    try: seed=int(seed)
    except ValueError: seed=1
    if tier not in ('quick','thorough'): tier='quick'
    t0=time.time()
    g=GROUP[pid[0]]
    os.makedirs(V+'/.build',exist_ok=True); os.makedirs(V+'/out',exist_ok=True); os.makedirs(V+'/evidence',exist_ok=True)
    bd=tempfile.mkdtemp(prefix=pid+'-',dir=V+'/.build')
    signal.signal(signal.SIGTERM,lambda *x:sys.exit(2))
    try:
        h=build.build(g,bd)
        tb=time.time()-t0
        work=bd+'/work'; os.mkdir(work); os.chmod(work,0o755); here=bd+'/cwd'; os.mkdir(here)  # the code under test may create files where it is
        res=bd+'/result.json'
        known={}
        for l in open(V+'/known-findings.txt'):
            m=re.match(r'finding: property=(\S+) key=(\S+) (.*)',l)
            if m and m[1]==pid: known[m[2]]=m[3]
        os.environ['VERIF_KNOWN']=' '.join(known)
        cmd=[h,pid,'--work',work,'--out',V+'/out','--result',res,'--seed',str(seed),'--tier',tier,'--tools',bd,*extra]
        if replay:
            return subprocess.call(cmd+['--replay',os.path.abspath(replay)],cwd=here)
        rc=subprocess.call(cmd,stdin=subprocess.DEVNULL,cwd=here)
        if rc not in (0,1): print(f'{pid}: the harness ended with {rc}'); return 2
        r=json.load(open(res))
        labels=r.pop('labels')
        cov={'evaluations':r['evaluations'],'distinct_nontrivial':r['distinct_nontrivial'],'rule':r['rule'],'samples':r['samples'],
             'planned_cases':r['planned_cases'],'cases':r['cases'],'classes':labels,'known_findings_met':{k:labels.get('known: '+k,0) for k in known},'mutated_cases':r['mutated_cases'],'corpus':r['corpus'],
             'code_counters_hit':r['counters_hit'],'code_counters_total':r['counters_total'],
             'workers':r['workers'],'workers_stopped_by_time_cap':r['workers_stopped_by_time_cap'],
             'unconfirmed_failures':r['flaky'],'unconfirmed_first':r['flaky_first'],'inconclusive_timeouts':r['inconclusive_timeouts'],'too_large_cases':r['harness_overflow'],
             'shrink_attempts':r['shrink_attempts'],'build_s':round(tb,2),'search_s':r['wall_s']}
        if pid in ('T13',): cov['exhaustive']=r['cases']>=r['planned_cases']
        if r['violation']: cov['violation_message']=r['message']; cov['violation_replay']=os.path.relpath(r['replay'],V)
        ev={'property':pid,'tier':tier,'seed':seed,'level':'exploration','coverage':cov,'assumptions':ASSUME[g],'wall_s':round(time.time()-t0,2),'violations':int(r['violation'])}
        json.dump(ev,open(f'{V}/evidence/{pid}.json','w'),indent=1)
        for k,v in known.items():
            if labels.get('known: '+k): print(f'KNOWN-FINDING: property={pid} {v} ({labels["known: "+k]} cases)')
        if r['violation']:
            print(f'{pid}: {r["message"]}')
            print(f'VIOLATION property={pid} replay={r["replay"]}')
            return 1
        if not r['evaluations']: print(f'{pid}: nothing could be run ({r["flaky"]} unconfirmed failures, {r["harness_overflow"]} cases without means)'); return 2
        print(f'{pid}: held on {r["evaluations"]} evaluations ({r["distinct_nontrivial"]} distinct non-trivial cases), {ev["wall_s"]} s')
        return 0
    finally:
        shutil.rmtree(bd,ignore_errors=True)
sys.exit(main())
