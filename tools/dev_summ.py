import json,sys
for f in sys.argv[1:]:
    L=[json.loads(l) for l in open(f)]
    print(f,L[0]); cnt=0; tot=held=und=ref=0
    for o in L[1:]:
        if o['err']: print('  ERR',o['ob'],o['errst'],o['err'][:200], 'paths',o['paths'])
        for g,v in o['goals'].items():
            tot+=v['n']; held+=v['held']
            if v['st']==1: und+=1; (und>12) or print('  UND',o['ob'],g,v['note'],v['held'],v['n'])
            if v['st']==2: ref+=1; (ref>12) or print('  REF',o['ob'],g,v['note'],str(v['cex'])[:160])
        if o['reached']==0: print('  VACUOUS',o['ob'])
    by={}
    for o in L[1:]:
        for v in o['goals'].values():
            for k,n in v['by'].items(): by[k]=by.get(k,0)+n
    sl=sorted(((o['wall'],o['ob'],o['paths']) for o in L[1:]),reverse=True)[:4]
    print('  goals',tot,'held',held,'undecided',und,'refuted',ref,by,sl)
