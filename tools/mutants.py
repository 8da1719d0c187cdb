#!/usr/bin/env python3
"""mutants.py [file-regexp]: runs the checks against small mechanical changes of /repo, in scratch copies, and lists those
which pass the stable tests and no check reports. For development. Results in /tmp/mut/results.jsonl (resumed)."""
import json,os,re,shutil,subprocess,sys,time
T='/tmp/mut'; R=T+'/repo'; V=T+'/verif'
ENV=dict(os.environ,GOFLAGS='-mod=mod -buildvcs=false',GOPROXY='off',GOTOOLCHAIN='local',VERIF_REPO=R,VERIF_SEED='1',VERIF_TIER='quick')
ALL=['C28','C07','C04','C24','C16','C12','C29','C27','C13','C17','C25','C05','C19','C06','C18','C02','C08','C26','C09','C03','C15','C14','C01','C10','C20','C11','C21','C22','C23','C30','C31','C32','C33']
FIRST=[('generate/','C32'),('cmd/jargon','C21 C22'),('web/','C23 C11'),('tokenqueue','C20 C08 C17 C12'),('trie','C26 C08 C24 C11'),('synonyms/filter','C27 C08 C10 C03 C25 C26 C29 C11 C05 C09'),
 ('ascii','C13 C09 C03'),('contractions','C12 C09 C03 C25'),('mapper','C28 C03 C05 C10'),('norm/','C14 C09'),('sigil','C17 C03 C25 C10 C05'),('stemmer','C15 C09'),('stopwords','C16 C03 C10 C05'),
 ('twitter','C17'),('stackoverflow','C24 C08'),('nba','C24 C08'),('tokenizer_html','C19 C18 C03 C10 C05'),('tokenizer.go','C02 C03 C01 C18 C19'),('tokenstream','C06 C05 C07 C03 C10 C29'),('token.go','C04'),('punct','C04')]
def sh(cmd,cwd,t): 
    try: return subprocess.run(cmd,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=t)
    except subprocess.TimeoutExpired: return None
def main():
    pat=re.compile(sys.argv[1] if len(sys.argv)>1 else '.')
    os.makedirs(T,exist_ok=True)
    for d in (R,V): shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',R],check=True)
    os.makedirs(V)
    for f in ('check.sh','known-findings.txt','properties.jsonl','mc'): subprocess.run(['cp','-a','/verif/'+f,V],check=True)
    p=V+'/mc/go.mod'; s=open(p).read().replace('=> /repo','=> '+R); open(p,'w').write(s)
    files=[f for f in subprocess.check_output(['git','ls-files','*.go'],cwd=R,text=True).split() if not f.endswith('_test.go') and ('generate' in pat.pattern or 'generate' not in f) and 'fold.go' not in f and pat.search(f)]
    ms=[json.loads(l) for l in subprocess.check_output(['go','run','./cmd/mutate']+[R+'/'+f for f in files],cwd=V+'/mc',env=ENV,text=True).splitlines()]
    seen=set()
    if os.path.exists(T+'/results.jsonl'):
        for l in open(T+'/results.jsonl'):
            r=json.loads(l); seen.add((r['file'],r['start'],r['end'],r['new']))
    names=set(s.rsplit('/',1)[1] for s in json.load(open('/opt/vp/BASELINE.json'))['stable'])
    print(len(ms),'mutants',flush=True)
    for m in ms:
        f=m['File'][len(R)+1:]; k=(f,m['Start'],m['End'],m['New'])
        if k in seen: continue
        path=m['File']; src=open(path,'rb').read()
        rec=dict(file=f,line=m['Line'],start=m['Start'],end=m['End'],old=m['Old'][:80],new=m['New'])
        try:
            open(path,'wb').write(src[:m['Start']]+m['New'].encode()+src[m['End']:])
            r=sh(['go','build','./...'],R,120)
            if r is None or r.returncode: rec['result']='build'
            else:
                r=sh(['go','test','-vet=off','-json','./...'],R,60)
                ok=set()
                if r:
                    for l in r.stdout.splitlines():
                        try: e=json.loads(l)
                        except ValueError: continue
                        if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Test'])
                if r is None or not names<=ok: rec['result']='tests'
                else:
                    order=[]
                    for a,b in FIRST:
                        if a in f: order=b.split(); break
                    rec['result']='SURVIVED'; rec['broken']=[]
                    t0=time.time()
                    for c in order+([x for x in ALL if x not in order] if os.environ.get('FULL') else []):
                        r=sh(['bash',V+'/check.sh',c],V,900)
                        if r is None or r.returncode not in(0,1): rec['broken'].append(c)
                        elif r.returncode==1: rec['result']=c; break
                    rec['s']=round(time.time()-t0)
        finally:
            open(path,'wb').write(src)
        open(T+'/results.jsonl','a').write(json.dumps(rec)+'\n')
        if rec['result'] not in('build','tests'): print(rec,flush=True)
main()
