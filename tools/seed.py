#!/usr/bin/env python3
"""Plants bugs: seed.py SPEC.py [id...] checks every bug of the spec in a scratch copy of /repo (builds, the
stable tests pass, the demonstration tells it from the unchanged tree) and writes /verif/seeded/<id>/.
seed.py --check [id...] applies each planted bug to /repo, runs its property's quick check, and undoes it."""
import json, os, subprocess, sys, shutil, tempfile, re, time
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off',
           PATH='/usr/local/go/bin:' + os.environ['PATH'])
SEEDED = os.environ.get('SEEDED', '/verif/seeded')  # elsewhere: bugs in lines of our own, for strengthening only
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not. cwd: the repository.
export HOME=/root PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D/demo.go.txt" "$T/main.go" && cp go.sum "$T/go.sum" && sed 's#^module .*#module demo#' go.mod >"$T/go.mod" || exit 2
printf 'require github.com/matehaxor03/holistic_json v0.0.0\\nreplace github.com/matehaxor03/holistic_json => %s\\n' "$PWD" >>"$T/go.mod"
cd "$T" && go build BUILDFLAGS -o demo . || exit 2
timeout -k 1 100 ./demo
'''
HEAD = '''package main

import (
%s
	"fmt"
	"os"

	json "github.com/matehaxor03/holistic_json/json"
)

var _ = json.NewMap

func fail(format string, a ...interface{}) {
	fmt.Printf(format+"\\n", a...)
	os.Exit(1)
}

func parse(s string) *json.Map {
	m, e := json.Parse(s)
	if e != nil || m == nil {
		fail("%%q is rejected: %%v", s, e)
	}
	return m
}

func write(m *json.Map) string {
	var b strings.Builder
	if e := m.ToJSONString(&b); e != nil {
		fail("cannot write: %%v", e)
	}
	return b.String()
}

func is(what string, got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fail("%%s: %%v, want %%v", what, got, want)
	}
}

'''
def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
def stable(cwd):
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'] if isinstance(base, dict) and 'stable' in base else (base.get('passed') or base.get('tests')))
    r = sh(['go','test','-json','-vet=off','-count=1','-timeout','10m','./...'], cwd, 700)
    log = tempfile.mktemp(); out = tempfile.mktemp()
    open(log,'w').write(r.stdout)
    subprocess.run(['python3','/opt/vp/results.py',out,'gojson:'+log],check=True,capture_output=True)
    res = json.load(open(out)); os.remove(log); os.remove(out)
    passed = set(res['passed'] if 'passed' in res else [k for k,v in res.items() if v in ('pass','passed')])
    return sorted(want - passed)
def plant(b):
    W = '/tmp/seedwork'
    if os.path.exists(W): shutil.rmtree(W)
    subprocess.run(['cp','-a','/repo',W],check=True)
    try:
        D = os.path.join(SEEDED, b['id'])
        tmp = tempfile.mkdtemp(prefix='seed-')
        body = b['demo']
        pk = {'strings'} | set(re.findall(r'\b(time|errors|strconv|sync|math|sort|unicode/utf8)\.[A-Z]', body))
        if 'json' in pk: pk.remove('json')
        head = HEAD % '\n'.join('\t"%s"' % x for x in sorted(pk))
        open(tmp+'/demo.go.txt','w').write(head + b.get('pre','') + 'func main() {\n' + body.strip('\n') + '\n}\n')
        open(tmp+'/demo.sh','w').write(DEMO.replace('BUILDFLAGS ', b.get('flags','') + ' ' if b.get('flags') else ''))
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(tmp+'/meta.json','w'),indent=1)
        r = sh(['bash',tmp+'/demo.sh'],W)
        if r.returncode: return 'demo fails on the unchanged tree: '+r.stdout[-500:]+r.stderr[-800:]
        for f,old,new in b['edits']:
            p = os.path.join(W,'json',f); s = open(p).read()
            n = s.count(old)
            if n != 1: return '%s: %d matches of %r' % (f,n,old[:80])
            open(p,'w').write(s.replace(old,new))
        r = sh(['go','build','./...'],W)
        if r.returncode: return 'build: '+r.stderr[-800:]
        # lines removed must be the original repository's
        diff = sh(['git','diff'],W).stdout
        blame_own = []
        for f in {e[0] for e in b['edits']}:
            bl = sh(['git','blame','-s','--line-porcelain','HEAD','--','json/'+f],W).stdout
            own=set(); cur=None
            for l in bl.split('\n'):
                m = re.match(r'^([0-9a-f]{40}) \d+ (\d+)',l)
                if m: cur=(m.group(1),int(m.group(2)))
                if l=='boundary': own.add(cur[1])
            d = sh(['git','diff','-U0','--','json/'+f],W).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',d,re.M):
                a=int(m.group(1)); n=int(m.group(2) or 1)
                for k in range(a,a+n):
                    if k in own: blame_own.append(1)
                    else: blame_own.append(0)
        if (not blame_own or sum(blame_own)==0) and SEEDED == '/verif/seeded': return 'changes no line of the original repository (%d hunklines)' % len(blame_own)
        miss = stable(W)
        if miss: return 'stable tests fail: %s' % miss[:5]
        r = sh(['bash',tmp+'/demo.sh'],W)
        if r.returncode == 0: return 'demo passes with the patch'
        if r.returncode == 2 and 'panic' not in r.stderr and 'fatal' not in r.stderr: return 'demo broken: '+r.stderr[-500:]
        if os.path.exists(D): shutil.rmtree(D)
        shutil.copytree(tmp,D); os.chmod(D+'/demo.sh',0o755)
        open(D+'/patch.diff','w').write(diff)
        shutil.rmtree(tmp)
        return 'ok  (%s)' % (r.stdout.strip()[-150:] or r.stderr.strip()[:150]).replace('\n',' ')
    finally:
        shutil.rmtree(W)
def check(i, tier='quick'):
    m = json.load(open(f'{SEEDED}/{i}/meta.json'))
    assert not sh(['git','status','--porcelain'],'/repo').stdout, '/repo is not clean'
    a = sh(['git','apply',f'{SEEDED}/{i}/patch.diff'],'/repo')
    if a.returncode: return 'does not apply'
    t = time.time()
    try:
        r = sh(['bash','/verif/run.sh',m['property'],tier],'/verif',900)
    finally:
        sh(['git','checkout','--','.'],'/repo')
    caught = r.returncode==1 and ('VIOLATION property=%s '%m['property']) in r.stdout
    lines=[l for l in r.stdout.split('\n') if not l.startswith(('KNOWN','   '))]
    return ('CAUGHT ' if caught else 'MISSED rc=%d '%r.returncode)+'%s %.0fs %s' % (m['property'],time.time()-t,' / '.join(lines)[:260])
if __name__=='__main__':
    if sys.argv[1]=='--check':
        for i in (sys.argv[2:] or sorted(os.listdir(SEEDED))): print(i,check(i),flush=True)
    else:
        ns={}; exec(open(sys.argv[1]).read(),ns)
        for b in ns['BUGS']:
            if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
            print(b['id'],plant(b),flush=True)
