# adversarial.py FILE [ID...]: runs the quick check of its property against each change in FILE.
# The changed code runs unconfined: add none that could write outside of the scratch directories.
import sys,os,subprocess,threading,queue,shutil
exec(open(sys.argv[1]).read())
os.makedirs('/tmp/adv',exist_ok=True)
only=set(sys.argv[2:])
q=queue.Queue()
for x in B:
    if not only or x[0] in only: q.put(x)
lock=threading.Lock()
STABLE={'TestConversion','TestParseHeaderFZ','TestParseHeaderPG','TestProject','TestResolution','Test_DE1200_WGS84'}
def lane(k):
    r=f'/tmp/adv/{os.getpid()}repo{k}'; shutil.rmtree(r,ignore_errors=True); subprocess.run(['git','clone','-q','/repo',r],check=True)
    w=f'/tmp/adv/{os.getpid()}go{k}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w+'/src/gitlab.cs.fau.de/since'); os.symlink(r,w+'/src/gitlab.cs.fau.de/since/radolan'); Rd=w+'/src/gitlab.cs.fau.de/since/radolan'
    e=dict(os.environ,GO111MODULE='off',GOPATH=w,GOENV='off',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-buildvcs=false',TZ='Europe/Berlin',CGO_ENABLED='0',GOWORK='off')
    while True:
        try: id,p,ed=q.get_nowait()
        except queue.Empty: return
        subprocess.run(['git','checkout','-q','--','.'],cwd=r)
        res=None
        for f,o,n in ed:
            s=open(f'{r}/{f}').read()
            if s.count(o)!=1: res=f'EDIT {f} {s.count(o)}'; break
            open(f'{r}/{f}','w').write(s.replace(o,n))
        if not res:
            bd=subprocess.run(['go','build','./...'],cwd=Rd,env=e,capture_output=True,text=True)
            if bd.returncode: res='BUILD '+bd.stderr[:300]
        if not res:
            t=subprocess.run(['go','test','-vet=off','-count=1','-v','.'],cwd=Rd,env=e,capture_output=True,text=True).stdout
            ok={l.split()[2] for l in t.splitlines() if l.startswith('--- PASS')}
            if not STABLE<=ok: res='TESTS fail'
        if not res:
            pr=subprocess.run(['./run.sh',p,'quick'],cwd='/verif',env=dict(os.environ,VERIF_REPO=r,VERIF_ARGS='-noevidence',VERIF_SHRINK='1s'),capture_output=True,text=True)
            v=f'VIOLATION property={p}' in pr.stdout
            res='caught' if pr.returncode==1 and v else f'MISSED rc={pr.returncode} {pr.stdout[-200:]+pr.stderr[-600:] if pr.returncode not in (0,1) else ""}'
        with lock: print(id,p,res,flush=True)
ts=[threading.Thread(target=lane,args=(k,)) for k in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
