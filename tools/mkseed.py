import os, subprocess, shutil, json, sys
def mk(sid, prop, edits, needs, breaks, demo):
    d=os.environ.get('SEED_DEST','/verif/seeded/')+sid; os.makedirs(d, exist_ok=True)
    w='/var/tmp/seed/mkw'; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    diff=''
    for fn in sorted({e[0] for e in edits}):
        src=open(os.environ.get('SEED_REPO','/repo')+'/'+fn, errors='surrogateescape').read(); new=src
        for f,a,b in [e for e in edits if e[0]==fn]:
            assert new.count(a)==1, (sid, fn, a, new.count(a))
            new=new.replace(a,b)
        for side,t in (('a',src),('b',new)):
            p=os.path.join(w,side,fn); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w',errors='surrogateescape').write(t)
        r=subprocess.run(['diff','-u','a/'+fn,'b/'+fn],cwd=w,stdout=subprocess.PIPE)
        t=r.stdout.decode('utf8','surrogateescape').split('\n')
        t[0]='--- a/'+fn; t[1]='+++ b/'+fn
        diff+='diff --git a/%s b/%s\n'%(fn,fn)+'\n'.join(t)
    open(d+'/patch.diff','w',errors='surrogateescape').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+'/meta.json','w'), indent=1)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo after the build; exit 0 on the unchanged tree
here=$(cd "$(dirname "$0")" && pwd)
exec python3 "$here/demo.py" "$PWD"
''')
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write('''import os, sys, re, subprocess, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__)); repo = sys.argv[1]
sys.path.insert(0, here)
import fits
d = tempfile.mkdtemp(); os.chdir(d)
def run(*a, **k):
    e = dict(os.environ, OMP_NUM_THREADS="2", LC_ALL="C")
    return subprocess.run([os.path.join(repo, a[0])] + [str(x) for x in a[1:]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200, env=e, **k)
def write(n, t):
    open(n, "w").write(t)
def check():
'''+'\n'.join('    '+l for l in demo.strip('\n').split('\n'))+'''
try:
    ok = check()
finally:
    os.chdir("/"); shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
''')
    shutil.copy('/verif/lib/fits.py', d)
