#!/usr/bin/env python3
"""seed.py FILE.py [id...]: makes and validates planted bugs from their definitions: /verif/seeded/<id>/.

FILE.py calls B(id, property, edits, needs, breaks, demo): edits are (file, old, new); demo is the body of a Go main
function (or a dict of files with demo.sh). Each is validated in a scratch copy of /repo: builds, stable tests pass, demo
exits 0 without it and not 0 with it."""
import json, os, shutil, subprocess, sys, tempfile
BUGS=[]
def B(id, prop, edits, needs, breaks, demo, imports=(), pkg=None, race=False):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,imports=imports,race=race))
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
BASE='b7cf0e2'
DEMO='''#!/bin/bash
# Runs main.go as a program of the module in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/zzdemo/main.go":"'"$D"'/main.go"}}' >"$T/o.json"
go build %s-overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
%s"$T/demo"
'''
def run(cmd, cwd, **k): return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
def main():
    src=sys.argv[1]; only=set(sys.argv[2:])
    exec(compile(open(src).read(),src,'exec'),{'B':B})
    stable=json.load(open('/opt/vp/BASELINE.json'))['stable']
    names=set(s.rsplit('/',1)[1] for s in stable)
    for b in BUGS:
        if only and b['id'] not in only: continue
        T=tempfile.mkdtemp(prefix='seed.',dir='/tmp'); R=T+'/repo'
        try:
            subprocess.run(['cp','-a','/repo',R],check=True)
            out='/verif/seeded/'+b['id']
            shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
            if isinstance(b['demo'],dict):
                for n,c in b['demo'].items(): open(out+'/'+n,'w').write(c)
            else:
                imps=sorted(set(['fmt','os','github.com/clipperhouse/jargon'])|set(b['imports']))
                body='package main\n\nimport (\n'+''.join('\t"%s"\n'%i if ' ' not in i else '\t%s\n'%i for i in imps)+')\n\nvar _ = jargon.NewToken\nvar _ = fmt.Sprint\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n'
                d=b['demo']
                if 'func main()' not in d: d='func main() {\n'+d+'\n}\n'
                open(out+'/main.go','w').write(body+d)
                subprocess.run(['gofmt','-w',out+'/main.go'])
                open(out+'/demo.sh','w').write(DEMO%(('-race ' if b['race'] else ''),''))
            os.chmod(out+'/demo.sh',0o755)
            json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(out+'/meta.json','w'),indent=1,ensure_ascii=False)
            D=T+'/d'; shutil.copytree(out,D)
            bad=[]
            r=run(['bash',D+'/demo.sh'],R,timeout=300)
            if r.returncode!=0: bad.append('demo fails on the unchanged tree: '+r.stdout[-500:]+r.stderr[-500:])
            for f,old,new in b['edits']:
                p=R+'/'+f; s=open(p).read()
                if s.count(old)!=1: bad.append(f'{f}: {s.count(old)} matches of {old!r}'); continue
                open(p,'w').write(s.replace(old,new))
            d=run(['git','diff'],R).stdout
            open(out+'/patch.diff','w').write(d)
            # lines of the original
            orig=False
            cur=None; base=[]
            for l in d.splitlines():
                if l.startswith('--- a/'): cur=l[6:]; base=run(['git','show',BASE+':'+cur],R).stdout.splitlines()
                elif l.startswith('-') and not l.startswith('---') and l[1:].strip() not in ('','}','{') and l[1:] in base: orig=True
            if not orig: print(b['id'],'only adds lines')
            r=run(['go','build','./...'],R)
            if r.returncode: bad.append('build: '+r.stderr[-600:])
            else:
                r=run(['go','test','-vet=off','-count=1','-json','./...'],R,timeout=600)
                st={}
                for l in r.stdout.splitlines():
                    try: e=json.loads(l)
                    except ValueError: continue
                    if e.get('Test') and e['Action'] in('pass','fail'): st[e['Package']+'/'+e['Test']]=e['Action']
                f=[s for s in stable if st.get(s)!='pass']
                if f: bad.append('tests fail: '+str(f))
                r=run(['bash',D+'/demo.sh'],R,timeout=300)
                if r.returncode in (0,3): bad.append(f'demo: exit {r.returncode} with the change: '+r.stdout[-300:]+r.stderr[-300:])
            print(b['id'],'ok' if not bad else 'BAD '+'; '.join(bad),flush=True)
            if bad: shutil.move(out,'/tmp/badseed.'+b['id']) if not os.path.exists('/tmp/badseed.'+b['id']) else shutil.rmtree(out)
        finally:
            subprocess.run(['rm','-rf',T])
main()
