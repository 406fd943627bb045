import subprocess,os,glob,sys
from concurrent.futures import ThreadPoolExecutor
R=os.environ.get('R','/repo'); PAT=os.environ.get('PAT',''); O='/tmp/t/rt/'
base=['g++-13','-std=c++20','-ftemplate-depth=5000','-O0','-w','-g0','-isystem','/verif/shim','-iquote','/verif/shim','-iquote',R,'-iquote','/repo/_build/gen']
if len(sys.argv)>1 and sys.argv[1]=='clang': base[0]='clang++'; O='/tmp/t/rt/c_'
libs=[f for f in glob.glob(R+'/mbo/**/*.cc',recursive=True) if not f.endswith(('_test.cc','_benchmark.cc','_main.cc','hash_tool.cc')) ]
tests=[f for f in glob.glob(R+'/mbo/**/*_test.cc',recursive=True) if PAT in f]
def comp(f):
    o=O+os.path.relpath(f,R).replace('/','_')+'.o'
    p=subprocess.run(base+['-c',f,'-o',o],capture_output=True,text=True,cwd=R)
    return f,o,p.returncode,p.stderr
with ThreadPoolExecutor(8) as ex:
    res=list(ex.map(comp,libs+tests))
lib=[]
for f,o,rc,err in res:
    if rc: print('COMPILE',f,[x for x in err.split('\n') if 'error' in x][:3])
    elif f in libs: lib.append(o)
open(O+'libs.txt','w').write('\n'.join(lib))
subprocess.run(['rm','-f',O+'libmbo.a']); subprocess.run(['ar','rcs',O+'libmbo.a']+lib)
def run(t):
    f,o,rc,err=t
    if rc: return f,'nc',''
    exe=o[:-2]
    p=subprocess.run([base[0],o,O+'libmbo.a','-lgmock','-lgtest','-lgtest_main','-lpthread','-o',exe],capture_output=True,text=True)
    if p.returncode: return f,'link',p.stderr[-600:]
    e=dict(os.environ,TEST_TMPDIR='/tmp/t/rt/tmp')
    os.makedirs('/tmp/t/rt/tmp',exist_ok=True)
    try: p=subprocess.run([exe],capture_output=True,text=True,errors='replace',timeout=200,env=e,cwd=R)
    except subprocess.TimeoutExpired: return f,'timeout',''
    fails=[x for x in p.stdout.split('\n') if x.startswith('[  FAILED')]
    return f,p.returncode,'; '.join(fails[:8])+('' if p.returncode>=0 else p.stderr[-300:])
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(run,[t for t in res if t[0] in tests]): print(r)
