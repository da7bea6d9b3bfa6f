# mkdemo.py ID PROPERTY NEEDS BREAKS < go test body : writes demo.sh, demo_test.go and meta.json; the patch is taken from /tmp/w/repo
import sys,json,os,subprocess
id,prop,needs,breaks=sys.argv[1:5]
d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
open(d+'/demo_test.go','w').write(sys.stdin.read())
open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; the test goes in through an overlay
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo$' .
''')
json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
p=subprocess.run(['git','-C','/tmp/w/repo','diff'],capture_output=True,text=True).stdout
assert p
open(d+'/patch.diff','w').write(p)
subprocess.run(['git','-C','/tmp/w/repo','checkout','-q','--','.'])
