#!/usr/bin/env python3
"""Build the harness and the code under test from /repo's working tree, outside of it."""
import os, sys, subprocess, glob, hashlib, concurrent.futures as cf
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
H=V+'/harness'
CC='clang'; CXX='clang++'
SAN=['-fsanitize=address,bounds,integer-divide-by-zero,unreachable,return','-fno-sanitize-recover=all']
COV=['-fsanitize-coverage=inline-8bit-counters,trace-cmp']
GROUPS={'term':['p_term.cc','vt.cc','gen_vt.cc'],
        'rec':['p_rec.cc','rec.cc','vt.cc','gen_vt.cc'],
        'stream':['p_stream.cc','rec.cc','vt.cc','gen_vt.cc'],
        'time':['p_time.cc','rec.cc','vt.cc','gen_vt.cc'],
        'tools':['p_tools.cc','rec.cc','vt.cc','gen_vt.cc']}

def run(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode:
        return ' '.join(cmd)+'\n'+r.stdout
    return None

def config(bd):
    """The header written by configure, or the committed copy of it."""
    c=bd+'/inc'; os.makedirs(c,exist_ok=True)
    src=REPO+'/config.h' if os.path.exists(REPO+'/config.h') else H+'/config.h.fallback'
    txt=open(src).read()
    p=c+'/config.h'
    if not os.path.exists(p) or open(p).read()!=txt: open(p,'w').write(txt)
    return c

def repo_sources():
    s=[]
    for d in ('libtty','libstream','sys','sys/unix','common'):
        for f in sorted(glob.glob(f'{REPO}/{d}/*.c')):
            s.append(f)
    return s

TOOLS={'termcat':'cat','termtime':'time','termrec':'rec','termplay':'play'}
# what the programs call that is stood in for (passed on unless a check asks for more)
WRAP=['kill','killpg','gettimeofday','clock_gettime','time','select','pselect','poll','nanosleep','clock_nanosleep','usleep','sleep','pthread_create','isatty','ioctl','ttyrec_r_play']
CLK=['gettimeofday','clock_gettime','time','select','pselect','poll','nanosleep','clock_nanosleep','usleep','sleep']
def build(group,bd):
    os.makedirs(bd+'/obj',exist_ok=True)
    inc=config(bd)
    cflags=['-std=gnu17','-O1','-g','-w','-ftrivial-auto-var-init=pattern','-fno-omit-frame-pointer','-DHAVE_CONFIG_H',f'-I{inc}']+[f'-I{REPO}/{d}' for d in ('','sys','libtty','common','libstream')]
    jobs=[]; objs=[]
    lib=[f for f in repo_sources() if '/common/' not in f]
    com=[f for f in repo_sources() if '/common/' in f]
    for f in lib:
        o=bd+'/obj/r_'+os.path.relpath(f,REPO).replace('/','_')+'.o'
        san=SAN
        if f.endswith('dosrecorder.c'): san=['-fsanitize=address']   # forms addresses out of an array's bounds without using them
        cov=COV
        if group=='time' and f.endswith('timeline.c'): cov=['-O0',COV[0]+',trace-stores']   # where a reader may cut in
        oom=[f'-D{x}=vp_{x}' for x in ('malloc','calloc','realloc','strdup')] if group in ('term','time') else []
        jobs.append([CC,*cflags,*oom,*san,*cov,'-c',f,'-o',o]); objs.append(o)
    tobj={}
    if group=='tools':
        for t,d in TOOLS.items():
            tobj[t]=[]
            for f in com+sorted(glob.glob(f'{REPO}/{d}/*.c')):
                o=f'{bd}/obj/{t}_'+os.path.relpath(f,REPO).replace('/','_')+'.o'
                jobs.append([CC,*cflags,*SAN,f'-Dmain={t}_main',f'-iquote{REPO}/{d}','-c',f,'-o',o]); tobj[t].append(o)
        jobs.append([CC,'-O1','-w','-static',H+'/helper.c','-o',bd+'/helper'])
    hobj=[]
    for f in ['engine.cc']+GROUPS[group]:
        o=bd+'/obj/h_'+f+'.o'
        jobs.append([CXX,'-std=c++17','-O1','-g','-Wall','-Wno-parentheses','-Wno-unused-function','-I'+H,'-c',H+'/'+f,'-o',o]); hobj.append(o)
    for f in ['shim.c']+(['wrap.c'] if group=='tools' else ['vclk.c'] if group=='rec' else []):
        o=bd+'/obj/h_'+f+'.o'
        jobs.append([CC,*cflags,'-c',H+'/'+f,'-o',o]); hobj.append(o)
    # long ones first
    jobs.sort(key=lambda j:0 if j[0]==CXX else 1)
    par(jobs,'build')
    # every program keeps its own names
    for t,l in tobj.items():
        o=f'{bd}/obj/{t}.o'
        par([['ld','-r','--force-group-allocation','-o',o,*l]],'link'); par([['objcopy',f'--keep-global-symbol={t}_main',o]],'link'); hobj.append(o)
    libs=['-lbz2','-lz','-llzma','-lzstd','-lcurl','-lpthread','-lutil','-lm']
    w=['pipe','pthread_create','getaddrinfo','malloc','calloc','realloc','strdup','dup','socket','connect','fdopen','gzdopen','BZ2_bzReadOpen','BZ2_bzWriteOpen','lzma_stream_decoder','lzma_easy_encoder','ZSTD_createDStream','ZSTD_createCStream','ZSTD_initDStream','ZSTD_initCStream'] if group=='stream' else WRAP if group=='tools' else CLK if group=='rec' else []
    par([[CXX,*SAN,'-o',bd+'/h_'+group,*hobj,*objs,*libs,*[f'-Wl,--wrap={x}' for x in w]]],'link')
    return bd+'/h_'+group

def par(jobs,what):
    with cf.ThreadPoolExecutor(8) as ex:
        errs=[e for e in ex.map(run,jobs) if e]
    if errs: raise SystemExit(what+' failed:\n'+'\n'.join(errs)[:6000])

if __name__=='__main__':
    bd=sys.argv[2] if len(sys.argv)>2 else '/tmp/vbuild'
    print(build(sys.argv[1],bd))
