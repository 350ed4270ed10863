#!/usr/bin/env python3
"""hmutate.py REPO OUTDIR [--per N] [--files regex] [--jobs J] …: like mutate.py, for the headers.  Each mutant is made in a scratch
copy of REPO, and bin/check builds and runs the checks named in HFIRST against it (everything is compiled again)."""
import os, sys, re, json, subprocess, shutil, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/dev/mutate.py').read().split('# ---------------------------------------------------------------- base build')[0]
src = src.split("files = [os.path.join")[0]
exec(src)
H = {'byteBuffer.h': 'P07 P02', 'sharedVector.h': 'P12 P13', 'bitSet.h': 'P06', 'pvData.h': 'P13 P10 P14', 'pvIntrospect.h': 'P09 P10 P04', 'typeCast.h': 'P15', 'serialize.h': 'P02', 'serializeHelper.h': 'P02',
     'status.h': 'P28', 'timer.h': 'P23', 'event.h': 'P23', 'lock.h': 'P23', 'thread.h': 'P23', 'valueBuilder.h': 'P21', 'anyscalar.h': 'P15', 'createRequest.h': 'P18', 'requestmapper.h': 'P19', 'timeStamp.h': 'P20',
     'alarm.h': 'P20', 'control.h': 'P20', 'display.h': 'P20', 'pvAlarm.h': 'P20', 'pvControl.h': 'P20', 'pvDisplay.h': 'P20', 'pvEnumerated.h': 'P20', 'pvTimeStamp.h': 'P20', 'pvUnitTest.h': 'P30', 'reftrack.h': 'P24 P29', 'json.h': 'P16 P17', 'parsehelper.h': 'P17',
     'epicsException.h': 'P28', 'debugPtr.h': 'P27', 'pvSubArrayCopy.h': 'P26', 'convert.h': 'P26', 'bitSetUtil.h': 'P19', 'pvdIntern.h': 'P10', 'pvType.h': 'P22', 'templateMeta.h': 'P12', 'destroyable.h': 'P21', 'standardField.h': 'P21', 'standardPVField.h': 'P21', 'localStaticLock.h': 'P29'}
hs = []
for root, ds, fs in os.walk(R + '/src'):
    for f in sorted(fs):
        if f in H: hs.append(os.path.join(root, f))
allm = []
for f in sorted(hs):
    if not re.search(a.files, f): continue
    s0, ms = mutants(f); ms = [(f,) + m for m in ms]
    random.Random(str(a.seed) + f).shuffle(ms); allm += ms[:a.per]
random.Random(a.seed).shuffle(allm); allm = allm[:a.max]
def mid(m): return os.path.basename(m[0]) + ':%d:%s:%s' % (m[2], m[1], hashlib.md5(repr(m[1:]).encode()).hexdigest()[:6])
if a.only: allm = [m for m in allm if re.search(a.only, mid(m))]
from collections import Counter
print(Counter(os.path.basename(m[0]) for m in allm), len(allm), flush=True)
if a.list: sys.exit()
rf = O + '/results.jsonl'
done = {json.loads(l)['id'] for l in open(rf)} if os.path.exists(rf) and not a.only else set()
lock = threading.Lock()
def work(k):
    C = O + '/copy%d' % k
    subprocess.run(['rsync', '-a', '--delete', '--exclude=.git', '--exclude=O.*', R + '/', C + '/'], check=True) if shutil.which('rsync') else (shutil.rmtree(C, ignore_errors=True), shutil.copytree(R, C, symlinks=True, ignore=shutil.ignore_patterns('.git', 'O.*', 'lib', 'bin')))
    while True:
        with lock:
            if not q: return
            m = q.pop()
        if os.path.exists(O + '/STOP'): return
        while os.path.exists(O + '/PAUSE'): time.sleep(5)
        f, op, ln, s, e, rep = m; i = mid(m)
        t = open(f).read(); tgt = os.path.join(C, os.path.relpath(f, R))
        rec = dict(id=i, file=os.path.relpath(f, R), line=ln, op=op, old=t[s:e][:200], new=rep[:200], ctx=t.split('\n')[ln - 1].strip()[:200])
        open(tgt, 'w').write(t[:s] + rep + t[e:])
        try:
            # a quick look whether it compiles at all
            r = subprocess.run(['clang++'] + flags('asan') + ['-fsyntax-only', '-I%s/src' % C] + sum([['-I%s/src/%s' % (C, d)] for d in D], []) + ['-x', 'c++', tgt], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: rec['res'] = 'nocompile'
            else:
                rec['res'] = 'survived'
                for p in H[os.path.basename(f)].split():
                    env = dict(os.environ, VERIF_REPO=C, VERIF_BUILD=O + '/b%d' % k)
                    try: r = subprocess.run([V + '/bin/check', p, '--fast', '--scale', a.scale], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                    except subprocess.TimeoutExpired: rec.update(res='killed', by=p, why='timeout'); break
                    o = r.stdout.decode(errors='replace')
                    if 'BUILD FAILED' in o: rec['res'] = 'nocompile'; break
                    if r.returncode: mm = re.search('VIOLATION.*', o); rec.update(res='killed', by=p, why=(mm.group() if mm else o[-200:])[:300]); break
        finally: open(tgt, 'w').write(t)
        with lock:
            open(rf, 'a').write(json.dumps(rec) + '\n')
            if a.only or rec['res'] == 'survived': print(rec['res'], i, '|', rec['ctx'], '|', rec['old'].replace('\n', ' ')[:80], '->', rec['new'].replace('\n', ' ')[:80], rec.get('by', ''), rec.get('why', '')[:150], flush=True)
q = [m for m in allm if mid(m) not in done]
ths = [threading.Thread(target=work, args=(k,)) for k in range(a.jobs)]
[t.start() for t in ths]; [t.join() for t in ths]
