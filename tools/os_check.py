"""Compares the simulated operating system with the real one."""
import sys; sys.path.insert(0,'/verif')
from dst import env; env.setup()
from dst import simio, procs, core
import os, io, tempfile, shutil, pathlib, subprocess, json, glob
real_tmp='/tmp/ost'
shutil.rmtree(real_tmp, ignore_errors=True); 
def T(base):
    out=[]
    def o(*a): out.append(repr(a).replace(base,'BASE'))
    def tr(f):
        try: o('ok', f())
        except Exception as e: o(type(e).__name__, getattr(e,'errno',None), str(e))
    j=os.path.join
    os.mkdir(base+'/d')
    fd,n=tempfile.mkstemp(dir=base+'/d'); os.write(fd,b'hello'); os.close(fd); os.replace(n,base+'/d/a'); o(open(base+'/d/a').read())
    with tempfile.NamedTemporaryFile('w',dir=base+'/d',delete=False) as f: f.write('x'*20000); f.flush(); os.fsync(f.fileno())
    shutil.move(f.name, base+'/d/b'); o(len(pathlib.Path(base+'/d/b').read_text()))
    shutil.copyfile(base+'/d/b', base+'/d/c'); shutil.copy(base+'/d/b', base+'/d/c2'); o(os.path.getsize(base+'/d/c'), sorted(os.listdir(base+'/d')))
    o(sorted(glob.glob(base+'/d/c*')))
    p=pathlib.Path(base)/'e'; p.mkdir(); (p/'t').write_text('12\n34\n'); o([x.name for x in p.iterdir()], (p/'t').stat().st_size, (p/'t').exists(), (p/'q').exists(), p.is_dir())
    (p/'t').unlink(); p.rmdir(); o(p.exists())
    tr(lambda: open(base+'/no/x','w')); tr(lambda: open(base+'/nox')); tr(lambda: open(base+'/d')); tr(lambda: open(base+'/d/a','x')); tr(lambda: os.open(base+'/nox',os.O_RDONLY)); tr(lambda: os.remove(base+'/nox')); tr(lambda: os.rename(base+'/nox',base+'/z')); tr(lambda: os.rmdir(base+'/d')); tr(lambda:os.stat(base+'/nox')); tr(lambda: os.makedirs(base+'/d'))
    with open(base+'/d/a','r+') as f: f.seek(2); f.write('LL'); 
    o(open(base+'/d/a').read())
    with open(base+'/d/a','a') as f: f.write('!!'); o(f.tell())
    o(open(base+'/d/a','rb').read())
    fd=os.open(base+'/d/a',os.O_RDWR|os.O_CREAT|os.O_TRUNC,0o600); o(os.write(fd,b'abcdef')); o(os.lseek(fd,1,0), os.read(fd,3)); os.ftruncate(fd,4); o(os.fstat(fd).st_size); f=os.fdopen(fd,'r'); f.seek(0); o(f.read()); f.close()
    with open(base+'/d/z', 'w', opener=lambda p,fl: os.open(p,fl,0o600)) as f: f.write('q')
    o(open(base+'/d/z').read())
    fd=os.open('/dev/null',os.O_WRONLY); o(os.write(fd,b'123')); os.close(fd)
    with open('/dev/null','w') as f: f.write('x')
    o(open('/dev/null').read())
    os.chdir(base+'/d'); o(os.getcwd(), os.path.abspath('z'), open('z').read(), os.path.realpath('z')); os.chdir('/')
    with tempfile.TemporaryDirectory(dir=base) as d: open(d+'/k','w').write('1'); o(os.path.exists(d+'/k'))
    o(os.path.exists(d))
    with tempfile.TemporaryFile(dir=base) as f: f.write(b'77'); f.seek(0); o(f.read())
    o(os.path.samefile(base+'/d/z',base+'/d/z'), os.path.samefile(base+'/d/z',base+'/d/a'))
    os.link(base+'/d/z',base+'/d/z9'); o(open(base+'/d/z9').read())
    f=open(base+'/d/z','rb'); g=os.fdopen(f.fileno(),'rb',closefd=False); o(g.read()); g.close(); f.seek(0); o(f.read()); f.close(); tr(lambda: f.read())
    for kw in (dict(),dict(text=True)):
        b=subprocess.check_output(['/bin/cat','/proc/cpuinfo'],stderr=subprocess.DEVNULL,**kw); o(type(b), len(b)>20)
    r=subprocess.run(['cat','/proc/cpuinfo'],capture_output=True); o(r.returncode,r.stderr)
    o(subprocess.getoutput('cat /proc/cpuinfo')[:9], os.popen('cat /proc/cpuinfo').read()[:9], open('/proc/cpuinfo').read()[:9])
    p=subprocess.Popen(['/bin/cat','/proc/cpuinfo'],stdout=subprocess.PIPE); o(p.stdout.readline()[:9]); p.stdout.close(); o(p.wait())
    return out
os.mkdir(real_tmp)
a=T(real_tmp); shutil.rmtree(real_tmp)
R=core.Run(); simio.disk=simio.Disk()
P=procs.Func(R,'x',lambda p: T('/sim')); procs.run_procs(R,[P])
print(P.status,P.traceback)
b=P.value or []
for x,y in zip(a,b):
    if x!=y: print('REAL',x[:200]); print('SIM ',y[:200])
print(len(a),len(b)); print(os.listdir('/tmp').count('sim'))
