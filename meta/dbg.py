import sys,re
sys.setrecursionlimit(20000)
sys.path.insert(0,'/verif')
from sa import build, ir
from sa.interp import *
def short(s): 
    s=re.sub(r'std::basic_string<char, std::char_traits<char>, std::allocator<char>>','STR',s)
    s=re.sub(r'boost::container::','bc::',s)
    s=re.sub(r'bc::vec_iterator<[^()]*?>\b','IT',s)
    return s
def go(tu,pat,stops=(),depth=9,kinds=('call','throw','asg','ctor','ret'),n=1,**kw):
    P=build.export([tu])[tu]
    for q in sorted(P.by_q):
        if not re.search(pat,q): continue
        for f in P.by_q[q][:n]:
            if f.get('body') is None: continue
            I=Interp(P,set(stops))
            for k,v in kw.items(): setattr(I,k,v)
            r=I.run(f)
            print('=====',q,f.get('ta'))
            for e in I.trace:
                if e.kind in kinds and not (e.kind=='ret' and 'lambda' in e.q):
                    print(short('%d %s %s(%s) if %s in %s @%s'%(e.i,e.kind,e.q,', '.join(show(a,depth) if isinstance(a,T) else str(a) for a in e.args),' && '.join(show(g,depth) for g in e.guards),e.loops,e.loc.split('/')[-1])))
            print('RET',short(show(r,20)))
            for k,v in I.final.store.items():
                if k[0] in ('a','this','g'): print('  FINAL',k,short(show(v,12)))
            print('guards',[short(show(g,9)) for g in I.final.guards])
            for l in I.loops.values():
                print('loop',l.id,l.kind,short(show(l.range)) if l.range else '','cond',short(show(l.cond,9)) if l.cond is not None else None)
                for k,v in l.init.items(): print('    init',k,short(show(v,9)))
                for k,v in l.step.items(): print('    step',k,short(show(v,12)))
            print('unknown',I.unknown)
if __name__=='__main__':
    go(sys.argv[1],sys.argv[2],sys.argv[3].split(',') if len(sys.argv)>3 else (),int(sys.argv[4]) if len(sys.argv)>4 else 9)
