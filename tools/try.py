"""try.py PID file 'old' 'new' : run a check on a tree with an edit"""
import sys,os,shutil,subprocess,tempfile
pid,rel,old,new=sys.argv[1:5]
d=tempfile.mkdtemp(dir='/tmp',prefix='try')
shutil.copytree('/repo/symfit',d+'/symfit')
p=d+'/symfit/'+rel
s=open(p).read()
old=old.encode().decode('unicode_escape');new=new.encode().decode('unicode_escape')
assert s.count(old)>=1,(s.count(old))
open(p,'w').write(s.replace(old,new,1))
env=dict(os.environ,SYMFIT_ROOT=d,VERIF_EVIDENCE=d+'/ev')
for q in pid.split(','):
    r=subprocess.run(['python3','/verif/run.py',q,'-v']+sys.argv[5:],env=env,capture_output=True,text=True)
    print('\n'.join(l[:200] for l in (r.stdout+r.stderr).splitlines()[:12]), r.returncode)
shutil.rmtree(d)
