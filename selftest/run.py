#!/usr/bin/env python3
"""Runs the analyzer on edited copies of the project.

Usage: run.py [-j N] [FILE or NAME]...

Each entry of selftest/*.txt is one edit:

  === NAME  benign            the checks must stay quiet
  === NAME  bug C01,C02       at least the named checks must report it
  file: PATH
  <<<<
  text
  ====
  replacement
  >>>>

Copies live in a scratch directory that is removed afterwards. Nothing of the project is executed; edits of packages that
build here are compiled and all others are type-checked against the stand-ins in stubs/.
"""
import os,re,sys,subprocess,tempfile,shutil,glob
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo=os.environ.get('VERIF_REPO','/repo')
def parse(fn):
    out=[];cur=None;state=None
    for line in open(fn):
        if state is None:
            if line.startswith('=== '):
                p=line.split(); cur=dict(name=p[1],kind=p[2],props=p[3].split(',') if len(p)>3 else [],edits=[],src=os.path.basename(fn)); out.append(cur)
            elif line.startswith('file: '): f=line[6:].strip()
            elif line.startswith('<<<<'): state='a';a=[];b=[]
        elif state=='a':
            if line.rstrip()=='====': state='b'
            else: a.append(line)
        elif state=='b':
            if line.rstrip()=='>>>>': cur['edits'].append((f,''.join(a),''.join(b))); state=None
            else: b.append(line)
    return out
full=False; more=[]
env=dict(os.environ,GOPROXY='off',GOFLAGS='-mod=mod',GOTOOLCHAIN='local',GOWORK='off')
def known(out):
    """Drops the verdict of CXX and CXY when all they report is listed as known."""
    k=[re.search(r'rule=(\S+) construct=(\S+)',l).groups() for l in open(here+'/known-findings.txt') if l.startswith('known: ')]
    res=[]
    for b in re.split(r'(?m)^(?=C\w\w: \d+ obligations)',out):
        if b.startswith('CX'):
            v=[(r,c.replace(' ','_')) for r,c in re.findall(r'(?m)^rule (\S+)\n  construct: (.*)$',b)]
            if all(x in k for x in v): b=re.sub(r'VIOLATION property=\S+.*','',b)
        res.append(b)
    return ''.join(res)
def one(e):
    d=tempfile.mkdtemp(prefix='selftest.')
    try:
        src=d+'/repo'
        shutil.copytree(repo,src,ignore=shutil.ignore_patterns('.git'),symlinks=True)
        for f,a,b in e['edits']:
            p=src+'/'+f
            s=open(p).read() if os.path.exists(p) else ''
            if a=='' : s+=b
            else:
                n=s.count(a)
                if n!=1:
                    a,b=a[:-1],b[:-1]
                    n=s.count(a)
                if n!=1: return e,'BROKEN','text found %d times in %s: %r'%(n,f,a[:60]),{}
                s=s.replace(a,b)
            open(p,'w').write(s)
        v=d+'/v'; os.mkdir(v); os.mkdir(v+'/evidence')
        for x in ('stubs','known-findings.txt'): os.symlink(here+'/'+x,v+'/'+x)
        c=subprocess.run(['go','vet','-unsafeptr=false','-copylocks=false','./pkg/curve/','./pkg/crypto/','./pkg/crypto/commitment/','./pkg/crypto/zkpok/'],cwd=src,env=env,capture_output=True,text=True)
        # vet here only serves to type-check
        if c.returncode and re.search(r'(undefined|declared and not used|imported and not used|cannot use|syntax error|mismatched|missing return|expected)',c.stderr):
            return e,'BROKEN','does not compile: '+c.stderr[:300],{}
        # CXX and CXY apply the rules of all properties of the protocols
        if all(f.startswith('pkg/sync/') for f,_,_ in e['edits']): every=['C18','C19','C20','C23']
        elif all(f.startswith('cmd/') for f,_,_ in e['edits']): every=['C21','C32','C23']
        else: every=['C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C25','CXX','CXY','C22','C23']
        ids=e['props'] if e['kind']=='bug' and not full else every+more
        r=None
        for some in ([[x] for x in ids] if e['kind']=='bug' else [ids]):
            q=subprocess.run([tool,'-repo',src,'-verif',v]+some,capture_output=True,text=True,errors='replace',timeout=900)
            if r is None: r=q
            else: r.stdout+=q.stdout; r.returncode=max(r.returncode,q.returncode)
        hit={}
        if e['kind']=='benign': r.stdout=known(r.stdout)
        for m in re.finditer(r'VIOLATION property=(\S+)',r.stdout): hit[m.group(1)]=1
        if r.returncode not in(0,1): return e,'CRASH',r.stderr[-500:],hit
        if e['kind']=='benign':
            return e,('ok' if not hit else 'ALARM'),r.stdout if hit else '',hit
        miss=[p for p in e['props'] if p not in hit]
        return e,('ok' if not miss else 'MISS'),'missed by '+','.join(miss) if miss else '',hit
    except Exception as x:
        return e,'BROKEN',repr(x),{}
    finally: shutil.rmtree(d)
def main():
    args=sys.argv[1:]; j=6; verbose=False
    if args[:1]==['-v']: verbose=True; args=args[1:]
    if args[:1]==['-j']: j=int(args[1]); args=args[2:]
    global tool
    subprocess.check_call([here+'/check.sh','--setup'])
    tool=tempfile.mkdtemp(prefix='selftest.')+'/verifan'
    shutil.copy(here+'/bin/verifan',tool)
    es=[]
    for fn in sorted(glob.glob(here+'/selftest/*.txt')): es+=parse(fn)
    if args: es=[e for e in es if any(re.search(a,e['name']) or a==e['src'] for a in args)]
    bad=0
    with ThreadPoolExecutor(j) as ex:
        for e,st,msg,hit in ex.map(one,es):
            if st!='ok': bad+=1
            print('%-8s %-7s %-40s reported by %s'%(st,e['kind'],e['name'],','.join(sorted(hit)) or '-'))
            if st!='ok' or (verbose and msg):
                if st=='ALARM' and not verbose:
                    keep=[l for l in msg.splitlines() if not re.match(r'^(PASS|KNOWN|C\d\d)',l)]
                    msg='\n'.join(l[:300] for l in keep[:16])
                print('    '+msg.replace('\n','\n    '))
    shutil.rmtree(os.path.dirname(tool))
    print('%d edits, %d wrong'%(len(es),bad))
    return 1 if bad else 0
sys.exit(main())
