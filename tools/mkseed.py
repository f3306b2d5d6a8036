import sys,os,subprocess,json,shutil
# mkseed(id, prop, needs, breaks, [(file, old, new)], demo_cpp, libs)
DEMO='''#!/bin/bash
# run with cwd = the repository, after its build
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -g %s -include cstdint -I_build/include -I_build/include/salticidae -Iinclude "$D/demo.cpp" %s -o "$T/demo" -luv -lssl -lcrypto -lpthread >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
UV_USE_IO_URING=0 timeout 240 "$T/demo"
r=$?
echo "demo exit status $r"
exit $r
'''
def mk(id, prop, needs, breaks, edits, cpp, srcs="src/*.cpp", flags=""):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not subprocess.check_output(['git','-C','/repo','status','--porcelain','-uno']).strip()
    try:
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(o)>=1,(id,f,o,s.count(o)); s=s.replace(o,n,1); open(p,'w').write(s)
        diff=subprocess.check_output(['git','-C','/repo','diff']).decode()
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','--','.'],stderr=subprocess.DEVNULL)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(cpp)
    open(d+'/demo.sh','w').write(DEMO%(flags,srcs)); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
