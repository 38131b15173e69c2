"""mut.py PID file  <<< blocks  'OLD\n====\nNEW' separated by '\n@@@@\n' ; each a separate mutant (multi-edit with '\n&&&&\n')"""
import sys,subprocess,os,shutil,concurrent.futures as cf,re
pids=sys.argv[1].split(','); F=sys.argv[2]
src=sys.stdin.read()
muts=[b for b in src.strip('\n').split('\n@@@@\n')]
def run(i,b):
    d='/tmp/mutw/%d'%i
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo/include','/repo/src','/repo/config.hpp.in',d]); subprocess.run('cp -a /repo/* %s/ 2>/dev/null'%d,shell=True) if 0 else None
    for ed in b.split('\n&&&&\n'):
        o,n=ed.split('\n====\n') if '\n====\n' in ed else (ed.split('\n====')[0],'')
        f=F
        if o.startswith('@'): f,o=o[1:].split('\n',1)
        p=d+'/'+f; s=open(p).read()
        if o not in s:
            # Again without the comments.
            z=lambda t: re.sub(r'(?m)^[ \t]*//.*\n','',t)
            s,o=z(s+'\n'),z(o)
        if o not in s: return i,b,'OLD NOT FOUND'
        s=s.replace(o,n,1); open(p,'w').write(s)
    out=[]
    for pid in pids:
        r=subprocess.run(['./check',pid],cwd='/verif',env=dict(os.environ,OBAKE_REPO=d,OBAKE_EVID='/tmp/mutw/ev%d'%i),capture_output=True,text=True,timeout=800)
        v=[l for l in r.stdout.splitlines()+r.stderr.splitlines() if 'VIOLATION' in l or 'rror' in l or l.startswith('  ')]
        try:
            import json
            u=json.load(open('/tmp/mutw/ev%d/%s.json'%(i,pid)))['coverage'].get('undecided',[])
            if r.returncode==0 and u: v+=['UND '+str(u[0])[:200]]
        except Exception: pass
        if r.returncode==0 and not (r.returncode==0 and any('UND' in x for x in v)): continue
        out.append('%s rc=%d %s | %s'%(pid,r.returncode,r.stdout.strip().splitlines()[-1][:110] if r.stdout.strip() else r.stderr[-300:], ' // '.join(v)[:260]))
    shutil.rmtree(d,ignore_errors=True)
    return i,b,'\n    '.join(x.replace('\n',' ')[:330] for x in out) or 'QUIET'
with cf.ThreadPoolExecutor(4) as ex:
    for i,b,o in ex.map(lambda t: run(*t),enumerate(muts)):
        print('--',i,b.replace('\n',' ⏎ ')[:150]); print('   ',o)
