"""dev helper: python3 tools/sweep.py [-f feat] ENTRY 'P0,P1|<python list of template parts>' ... ; prints grouped results"""
import sys, re
sys.path.insert(0, '/verif')
from symlib import *
from specs import rep, A, STRUCT, HEX
def short(msg):
    fs = re.findall(r'\[in (.*)\]$', msg, re.S)
    names = []
    if fs:
        for f in fs[0].split(' < ')[:4]:
            c = re.findall(r'(\d+)([a-z_]\w*)', f)
            n = [x[1][:int(x[0])] for x in re.findall(r'((\d+))([a-z_A-Z]\w*)', f) and [(m.group(1), m.group(2)) for m in re.finditer(r'(\d+)_?([a-zA-Z_]\w*)', f)]]
            # last identifier of the path
            names.append(n[-1] if n else f)
    return names
def fn_name(f):
    ids=[]; i=0
    while i < len(f):
        if f[i].isdigit():
            j=i
            while j<len(f) and f[j].isdigit(): j+=1
            k=int(f[i:j]); 
            if j<len(f) and f[j]=='_': j+=1
            if k>0 and j+k<=len(f):
                ids.append(f[j:j+k]); i=j+k; continue
            i=j
        else: i+=1
    ids=[x for x in ids if not x.startswith('vh')]
    return ids[-1] if ids else f
def group(msg):
    m = re.match(r'(.*?)(?: \[in (.*)\])?$', msg, re.S)
    stack = [fn_name(x) for x in (m.group(2) or '').split(' < ')[:3]]
    return m.group(1).replace('\n',' ')[:90] + ' ' + ' at '.join(re.findall(r'at (/repo\S+)', msg)) , '<'.join(stack)
if __name__ == '__main__':
    a = sys.argv[1:]
    feats = []
    SHOW=3; T=120; STEPS=400000
    while a[0].startswith('-'):
        if a[0]=='-f': feats=[a[1]]
        if a[0]=='-t': T=int(a[1])
        if a[0]=='-n': SHOW=int(a[1])
        if a[0]=='-s': STEPS=int(a[1])
        a=a[2:]
    us = []
    if a[0].startswith('C'):
        # sweep.py C15 [quick|thorough] [unit regex]: the units of a registered check
        import specs
        rx = a[2] if len(a) > 2 else ''
        for fs, u in specs.SPECS[a[0]]['groups'](a[1] if len(a) > 1 else 'quick'):
            if list(fs) == feats or feats and not fs:
                us += [x for x in u if re.search(rx, x[0])]
    else:
        for i, s in enumerate(a[1:]):
            p, t = s.split('|',1)
            us.append(('u%d' % i, a[0], [int(x) for x in p.split(',') if x] + (tmpl(*eval('['+t+']')) if t.strip() else [])))
    l=lock(); eng=build_engine(); ll=build_ir(feats); build_native(feats) if feats else None; l.close()
    import os
    pre='/tmp/sw%d'%os.getpid()
    with open(pre+'.u','w') as f:
        for n, e, p in us:
            f.write('%s %s %s\n' % (n, e, ' '.join(map(str, p))))
    subprocess.run([eng,'run','--ll',ll,'--units',pre+'.u','--out',pre+'.json','--threads','8','--time',str(T),'--steps',str(STEPS),'--samples','3','--maxviol','100000'], stdout=subprocess.DEVNULL)
    d = json.load(open(pre+'.json'))
    print('wall %.1f queries %d solver %.1f unknown %d funcs %d' % (d['wall'], d['queries'], d['solver_s'], d['unknown'], len(d['functions'])))
    for u in d['units']:
        print(u['name'], 'paths', u['paths'], 'assume', u['assume'], 'viol', u['viol'], 'unsup', u['unsup'], 'maxsteps', u['maxsteps'], 'covers', bin(u['covers']), 'time %.1f'%u['time'], 'INCOMPLETE' if u['incomplete'] else '')
        g = {}
        for v in u['violations']:
            if v['kind']=='assert': k=('assert', v['msg'][:150].split(' [in')[0])
            else: k=(v['kind'],)+group(v['msg'])
            g.setdefault(k, []).append(bytes.fromhex(v['input']))
        for k, v in list(g.items())[:25]:
            v.sort(key=lambda x:(len(x),x))
            print('   ', *k, len(v), v[:1])
            e, ps = [(e, ps) for n, e, ps in us if n == u['name']][0]
            for b in v[:SHOW]:
                r=subprocess.run(['/verif/.build/native'+''.join('_'+f for f in feats)+'/debug/replay','one',e,b.hex() or '-']+[str(x) for x in ps],capture_output=True,text=True)
                l=r.stdout.split('\n')
                try:
                    w=[int(x,16) for x in l[0].split()]; t=repr(bytes(w[1:1+w[0]]))
                except Exception: t=l[0]
                print('       ', t[:200], (l+[''])[1][:100])
        for v in u['unsupported'][:3]: print('    UNSUP', v['msg'][:200], v['input'])
