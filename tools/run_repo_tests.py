"""Compiles and runs the repository's own tests against the stand-ins (development aid:
shows how faithful the stand-ins are, and that a fix keeps the tests passing).
usage: run_repo_tests.py [substring of the test path ...]
Needs the plain variant built; writes only under /tmp/rt; removes executables it ran."""
import glob,os,subprocess,sys,concurrent.futures as cf
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'vlib'))
import build as B
R=B.REPO
pats=sys.argv[1:]
out='/tmp/rt/o'; os.makedirs(out,exist_ok=True)
objs=glob.glob(B.BUILD+'/plain/engine/**/*.o',recursive=True)+glob.glob(B.BUILD+'/plain/standin/*.o')
lib='/tmp/rt/libsk.a'
if os.path.exists(lib): os.remove(lib)
subprocess.check_call(['ar','rcs',lib]+objs)
if not os.path.exists('/tmp/rt/gt.o'):
    subprocess.check_call(['g++','-std=c++17','-O1','-I/usr/src/googletest/googletest','-I/usr/src/googletest/googletest/include','-c','/usr/src/googletest/googletest/src/gtest-all.cc','-o','/tmp/rt/gt.o'])
    subprocess.check_call(['g++','-std=c++17','-O1','-I/usr/src/googletest/googletest/include','-c','/usr/src/googletest/googletest/src/gtest_main.cc','-o','/tmp/rt/gtm.o'])
srcs=[x for x in sorted(glob.glob(R+'/test/**/*.cpp',recursive=True)) if not pats or any(p in x for p in pats)]
def one(s):
    exe=out+'/'+os.path.relpath(s,R+'/test').replace('/','__')[:-4]
    if not os.path.exists(exe):
        cmd=['g++','-O0']+B.COMMON+B.INC+['-I'+R+'/test','-I'+R+'/test/include','-I'+R+'/bench/include','-I/usr/src/googletest/googletest/include','-I'+R+'/src/concurrency_control/include',s,'/tmp/rt/gt.o','/tmp/rt/gtm.o',lib]+B.LIBS+['-ldl','-o',exe]
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if p.returncode: 
            open(exe+'.err','w').write(p.stdout); return (s,'COMPILE')
    try:
        p=subprocess.run([exe],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=120,env=dict(os.environ,GLOG_logtostderr='1',GLOG_minloglevel='2'),cwd='/tmp/rt',errors='replace')
        os.remove(exe)
        open(exe+'.log','w').write(p.stdout)
        return (s,'ok' if p.returncode==0 else 'FAIL %d'%p.returncode)
    except subprocess.TimeoutExpired: return (s,'TIMEOUT')
with cf.ThreadPoolExecutor(6) as ex, open('/tmp/rt/res.txt','w') as f:
    for s,r in ex.map(one,srcs):
        print(r,s,flush=True) if r!='ok' else None
        f.write(r+' '+s+'\n'); f.flush()
