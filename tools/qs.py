import json,os,subprocess,sys,shutil,threading,queue
# qs.py FILE [ids...] : FILE defines SEEDS list of (id, prop, [(file, old, new)...])
ns={}; exec(open(sys.argv[1]).read(),ns); S=ns['SEEDS']; ids=sys.argv[2:]
ENV=dict(os.environ,HOME="/root",PATH="/opt/veriftools/go1.27.3/bin:/usr/sbin:/usr/bin:/sbin:/bin",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GOPATH="/root/go",GOMODCACHE="/root/go/pkg/mod",GOMAXPROCS="4")
W=int(os.environ.get('W','4'))
q=queue.Queue()
for s in S:
    if not ids or s[0] in ids: q.put(s)
lock=threading.Lock()
import re
chk=open('/verif/check.py').read(); SC={}; exec(chk[chk.index('SCALE = {'):chk.index('def build')],SC); SC=SC['SCALE']
def sh(c,cwd,env,to):
    try:
        r=subprocess.run(c,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=to,text=True,errors='replace'); return r.returncode,r.stdout
    except subprocess.TimeoutExpired: return 'timeout',''
def worker(k):
    base=os.environ.get('QSW','/tmp/qsw')+'/%d'%k; repo=base+'/repo'
    if not os.path.exists(base):
        os.makedirs(base); subprocess.run(['cp','-a',os.environ.get('QREPO','/repo'),repo])
    subprocess.run(['git','checkout','-q','--','.'],cwd=repo)
    subprocess.run(['git','fetch','-q',os.environ.get('QREPO','/repo')],cwd=repo); subprocess.run('git reset -q --hard $(git -C '+os.environ.get('QREPO','/repo')+' rev-parse HEAD)',shell=True,cwd=repo)
    shutil.rmtree(base+'/pbt',ignore_errors=True); subprocess.run(['cp','-a','/verif/pbt',base+'/pbt'])
    g=open(base+'/pbt/go.mod').read().replace('=> /repo','=> ../repo'); open(base+'/pbt/go.mod','w').write(g)
    env=dict(ENV,GOCACHE=base+'/cache')
    while True:
        try:s=q.get_nowait()
        except queue.Empty:return
        id,props,edits=s; msg=''
        try:
            for f,o,n in edits:
                t=open(repo+'/'+f).read()
                if t.count(o)!=1: msg='EDIT %s matches %d: %r'%(f,t.count(o),o[:60]); break
                open(repo+'/'+f,'w').write(t.replace(o,n))
            if msg: continue
            rc,o=sh(['go','build','./...'],repo,env,300)
            if rc: msg='NOBUILD '+o[:500]; continue
            rc,o=sh(['go','test','-p','4','-vet=off','-timeout','120s','./...'],repo,env,400)
            if rc: msg='TESTS '+' '.join(re.findall(r'--- FAIL: (\S+)',o)[:6]); continue
            res=[]
            for p in props.split():
                race=p=='C01'
                rc,o=sh(['go','test','-c','-vet=off']+(['-race'] if race else [])+['-o',base+'/t','.'],base+'/pbt',env,300)
                if rc: msg='PBTBUILD '+o[:300]; break
                e=dict(env,VERIF_SCALE=str(SC.get(p,1)),VERIF_SEED='1',VERIF_REPLAY_DIR=base,VERIF_KNOWN='/verif/known_findings.json',VERIF_OUT=base+'/ev.json')
                rc,o=sh([base+'/t','-test.run','^Test%s$'%p,'-test.timeout','0'],base+'/pbt',e,900)
                m=re.findall(r'^VIOLATION .*',o,re.M); l=[x for x in o.splitlines() if re.match(r'\[?%s/'%p,x.strip())][:1]
                res.append(p+(':CAUGHT '+(m[0].split('/')[-1] if m else '') if rc==1 and (m or 'DATA RACE' in o) else ':missed' if rc==0 else ':rc%s'%rc))
            if not msg: msg=' '.join(res)
        finally:
            subprocess.run(['git','checkout','-q','--','.'],cwd=repo)
            with lock: print(id,msg,flush=True)
ts=[threading.Thread(target=worker,args=(k,)) for k in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
