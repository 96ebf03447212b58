"""mut.py PROPS <<< lines 'file ||| old ||| new'"""
import sys,os,shutil,subprocess
props=sys.argv[1].split(',')
for line in sys.stdin.read().split('\n=====\n'):
    if not line.strip(): continue
    f,a,b=line.split('|||')
    f=f.strip(); a=a.strip('\n'); b=b.strip('\n')
    cut=lambda x: x.strip(' ') if not x.startswith('  ') else x[1:].rstrip(' ')
    a=cut(a); b=cut(b)
    d='/tmp/w/mutrepo'
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d); shutil.copytree('/repo/javatools',d+'/javatools')
    p=d+'/javatools/'+f; s=open(p).read()
    if a not in s: print('NOT FOUND',f,repr(a)); continue
    open(p,'w').write(s.replace(a,b,1))
    for pr in props:
        r=subprocess.run(['python3','/verif/check.py',pr],env=dict(os.environ,JT_REPO=d),capture_output=True,text=True)
        lines=[l for l in r.stdout.split('\n') if 'violated for' in l or l.startswith('UNDEC') or 'BROKEN' in l]
        print('%s rc=%d %s -> %s | %s'%(pr,r.returncode,a.strip()[:50].replace('\n',' '),b.strip()[:50].replace('\n',' '),' ## '.join(l[:150] for l in lines[:2])))
        if r.returncode not in (0,1): print(r.stdout[-300:], r.stderr[-600:])
