import sys,glob,os,subprocess,concurrent.futures as cf
sys.path.insert(0,'/verif/tools'); import build as B
us=B.units('plain'); need=[x for n,x in us.items() if not n.startswith('check/')]
errs,_=B.compile_units(need); print('errs',list(errs))
tests=sorted(glob.glob('/repo/tests/src/**/*.cpp',recursive=True)+glob.glob('/repo/tests/framework/src/*.cpp'))
tests=[t for t in tests if 'Test_Socket.cpp' not in t and 'AddCommitments' not in t]
def comp(f):
    o='/tmp/tt/'+f.replace('/','_')+'.o'
    cmd=[x for x in B.cxx_repo('plain')]+['-DCATCH_CONFIG_NO_POSIX_SIGNALS','-I/repo/deps/Catch2','-I/repo/tests/framework/include','-I/repo/tests/framework','-I/repo/tests/include','-I/repo/tests/src','-c',f,'-o',o]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: return f,None,[l for l in r.stderr.splitlines() if 'error' in l][:2]
    return f,o,None
with cf.ThreadPoolExecutor(8) as ex: rs=list(ex.map(comp,tests))
for f,o,e in rs:
    if e: print('FAIL',f,e)
objs=[o for f,o,e in rs if o]
avail={n:x for n,x in us.items() if not n.startswith('check/') and n not in errs and n not in ('harness/pbt.cpp','harness/rocks_fast.cpp','harness/powsmall.cpp')}
firsts=[avail['repo/'+f] for f in B.FIRST if 'repo/'+f in avail]; rest=[x for n,x in sorted(avail.items()) if x not in firsts]
open('rsp','w').write('\n'.join([firsts[0].obj]+['-Wl,--start-lib']+[x.obj for x in firsts[1:]]+['-Wl,--end-lib']+objs+['-Wl,--start-lib']+[x.obj for x in rest]+['-Wl,--end-lib']))
r=subprocess.run(['g++','-fuse-ld=lld','-o','tests','@rsp']+B.LIBS,capture_output=True,text=True); print(r.returncode,r.stderr[:3000])
