"""dev helper: show.py ENTRY p,p,.. FILE : for each b'..' input in sweep output FILE, print the text the harness generated (first out_bytes) and the verdict"""
import sys,subprocess,ast,re
e,p,f=sys.argv[1:4]; seen=set()
for m in re.finditer(r"b'(?:[^'\\]|\\.)*'|b\"(?:[^\"\\]|\\.)*\"",open(f).read()):
    b=ast.literal_eval(m.group(0))
    if b in seen: continue
    seen.add(b)
    r=subprocess.run(['/verif/.build/native/debug/replay','one',e,b.hex() or '-']+p.split(','),capture_output=True,text=True)
    l=r.stdout.split('\n')
    try:
        w=[int(x,16) for x in l[0].split()]; t=bytes(w[1:1+w[0]])
    except Exception: t=l[0]
    print(repr(t),l[1][:150])
