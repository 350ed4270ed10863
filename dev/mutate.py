#!/usr/bin/env python3
"""mutate.py REPO OUTDIR [--files regex] [--max N] [--jobs J] [--scale X] [--seed S]: development tool, not a check.
Makes small textual changes of the library's .cpp files one at a time, and runs the checks against each (library as a
shared object, so that only one file is compiled per mutant).  OUTDIR/results.jsonl gets one line per mutant:
killed by which check, or survived.  Re-running continues where it stopped."""
import sys, os, re, random, subprocess, json, argparse, threading, queue, importlib.machinery, importlib.util, time, shutil, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
from props import PROPS
ap = argparse.ArgumentParser()
ap.add_argument('repo'); ap.add_argument('out'); ap.add_argument('--files', default='.'); ap.add_argument('--max', type=int, default=10**9)
ap.add_argument('--jobs', type=int, default=4); ap.add_argument('--scale', default='0.15'); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--list', action='store_true'); ap.add_argument('--only'); ap.add_argument('--per', type=int, default=10**9)
a = ap.parse_args()
R = os.path.abspath(a.repo); O = os.path.abspath(a.out); os.makedirs(O, exist_ok=True)
D = 'misc pv factory property copy pvMisc json'.split()
B = '/opt/vp/epics-base/include'
GEN = O + '/gen'
FL = {'asan': '-fsanitize=address -fsanitize=bounds,null,return,unreachable,vptr,integer-divide-by-zero,shift -fno-sanitize-recover=all', 'tsan': '-fsanitize=thread'}
def flags(fl): return ('-std=gnu++17 -w -g1 -O1 -fPIC -fno-caret-diagnostics -ferror-limit=2 -fno-omit-frame-pointer ' + FL[fl] + ' -I%s/shim/clang -I%s -I%s/src ' % (V, GEN, R) + ' '.join('-I%s/src/%s' % (R, d) for d in D) + ' -I%s -I%s/os/Linux -I%s/compiler/gcc -I%s/harness' % (B, B, B, V)).split()
FIRST = {  # file -> properties to try first
 'bitSet.cpp': 'P06 P03 P02', 'byteBuffer.cpp': 'P07', 'serializeHelper.cpp': 'P02 P01 P05', 'status.cpp': 'P28 P02', 'epicsException.cpp': 'P28', 'pvUnitTest.cpp': 'P30', 'debugPtr.cpp': 'P27', 'timer.cpp': 'P23', 'thread.cpp': 'P23', 'event.cpp': 'P23',
 'typeCast.cpp': 'P15', 'parseToPOD.cpp': 'P15', 'anyscalar.cpp': 'P15', 'reftrack.cpp': 'P24', 'printer.cpp': 'P22', 'Compare.cpp': 'P11 P04', 'Convert.cpp': 'P26 P15',
 'pvSubArrayCopy.cpp': 'P26', 'PVUnion.cpp': 'P14 P01', 'PVUnionArray.cpp': 'P13 P01', 'PVStructureArray.cpp': 'P13 P01', 'PVStructure.cpp': 'P10 P03 P01', 'PVField.cpp': 'P10 P25',
 'PVDataCreateFactory.cpp': 'P13 P01 P11', 'FieldCreateFactory.cpp': 'P09 P04 P05 P08 P24', 'StandardField.cpp': 'P21', 'StandardPVField.cpp': 'P21', 'TypeFunc.cpp': 'P22 P09',
 'jprint.cpp': 'P16', 'parseinto.cpp': 'P17 P16', 'parseany.cpp': 'P17', 'parsehelper.cpp': 'P17', 'requestmapper.cpp': 'P19', 'createRequest.cpp': 'P18 P19', 'valueBuilder.cpp': 'P21',
 'bitSetUtil.cpp': 'P19 P03', 'alarm.cpp': 'P20', 'timeStamp.cpp': 'P20', 'pvAlarm.cpp': 'P20', 'pvTimeStamp.cpp': 'P20', 'pvDisplay.cpp': 'P20', 'pvControl.cpp': 'P20', 'pvEnumerated.cpp': 'P20'}

# ---------------------------------------------------------------- mutants
def strip(src):
    """blank comments, strings and preprocessor lines (same length)"""
    out = list(src); i = 0; n = len(src)
    def blank(s, e):
        for k in range(s, e):
            if out[k] != '\n': out[k] = ' '
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|^[ \t]*#(?:[^\n\\]|\\\n|\\.)*', src, re.S | re.M): blank(m.start(), m.end())
    t = ''.join(out)
    # template arguments are not comparisons
    for k in range(3): t = re.sub(r'(?<=\w)<([\w:,*& \x01\x02]*)>', lambda m: '\x01' + m.group(1) + '\x02', t)
    return t
OPS = [
 ('rel', r'(?<![<>=!\-])(<|>)(=?)(?![<>=])(?=\s*[\w(\-])', lambda m: [{'<': '<=', '<=': '<', '>': '>=', '>=': '>'}[m.group(1) + m.group(2)]]),
 ('eq', r'([=!])=(?!=)', lambda m: ['!=' if m.group(1) == '=' else '==']),
 ('logic', r'&&|\|\|', lambda m: ['||' if m.group() == '&&' else '&&']),
 ('arith', r'(?<=[\w)\] ])([+\-])(?=[ \w(])(?![+\-=>])', lambda m: ['-' if m.group(1) == '+' else '+']),
 ('assignop', r'(\+=|-=|\|=|&=|\^=)', lambda m: [{'+=': '-=', '-=': '+=', '|=': '&=', '&=': '|=', '^=': '|='}[m.group(1)]]),
 ('incr', r'(\+\+|--)', lambda m: ['--' if m.group() == '++' else '++', '']),
 ('bool', r'\b(true|false)\b', lambda m: ['false' if m.group() == 'true' else 'true']),
 ('num', r'(?<![\w.])(\d+)(?![\w.])', lambda m: [str(int(m.group()) + 1)] + ([str(int(m.group()) - 1)] if int(m.group()) > 0 else [])),
 ('hex', r'\b0x([0-9a-fA-F]+)\b', lambda m: ['0x%x' % (int(m.group(1), 16) ^ 1)]),
 ('minmax', r'\bstd::(min|max)\b', lambda m: ['std::max' if m.group(1) == 'min' else 'std::min']),
 ('brk', r'\b(break|continue)\s*;', lambda m: ['continue;' if m.group(1) == 'break' else 'break;', ';']),
 ('cond', r'\b(if|while)\s*\(', None),
 ('stmt', r'(?<=[;{}:)\n])([ \t]*)([A-Za-z_*(][^;{}]*);', None),
 ('not', r'!(?![=])', lambda m: ['']),
 ('shift', r'<<(?=\s*\d)|>>(?=\s*\d)', lambda m: ['>>' if m.group() == '<<' else '<<']),
]
def closing(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == '(': d += 1
        elif s[k] == ')':
            d -= 1
            if d == 0: return k
    return -1
def mutants(path):
    src = open(path).read(); s = strip(src); res = []
    # only inside function bodies: brace depth>0 after dropping namespace/extern braces is approximated by skipping decl-like lines
    for name, rx, f in OPS:
        for m in re.finditer(rx, s):
            ln = s.count('\n', 0, m.start()) + 1
            line = s.split('\n')[ln - 1]
            if re.match(r'\s*(template|typedef|using|namespace|class|struct|static const|extern)\b', line): continue
            if name == 'cond':
                e = closing(s, m.end() - 1)
                if e < 0: continue
                res.append((name, ln, m.end(), e, '!(' + src[m.end():e] + ')')); res.append((name, ln, m.end(), e, 'false && (' + src[m.end():e] + ')')) if m.group(1) == 'if' else None
                if m.group(1) == 'if': res.append((name, ln, m.end(), e, 'true || (' + src[m.end():e] + ')'))
            elif name == 'stmt':
                t = m.group(2).strip()
                if re.match(r'(return|break|continue|throw|case|default|public|private|protected|typedef|using|class|struct|const\b|static|extern|virtual|goto|else|for|while|if|switch|do|enum|namespace|template)', t):
                    if re.match(r'throw\b', t): pass
                    else: continue
                # declarations "T x ..." rarely removable: leave to the compiler
                ln2 = s.count('\n', 0, m.start(2)) + 1
                res.append((name, ln2, m.start(2), m.end(), ';'))
            else:
                for r in f(m): res.append((name, ln, m.start(), m.end(), r))
    return src, res
files = [os.path.join(R, 'src', d, f) for d in D for f in sorted(os.listdir(os.path.join(R, 'src', d)) if os.path.isdir(os.path.join(R, 'src', d)) else []) if f.endswith('.cpp')]
SKIP = re.compile('debugPtr')
allm = []
for f in files:
    if SKIP.search(f) or not re.search(a.files, f): continue
    src, ms = mutants(f)
    ms = [(f,) + m for m in ms]
    random.Random(str(a.seed) + f).shuffle(ms)
    allm += ms[:a.per]
random.Random(a.seed).shuffle(allm)
allm = allm[:a.max]
def mid(m): return os.path.basename(m[0]) + ':%d:%s:%s' % (m[2], m[1], hashlib.md5(repr(m[1:]).encode()).hexdigest()[:6])
if a.only: allm = [m for m in allm if re.search(a.only, mid(m))]
if a.list:
    from collections import Counter
    print(Counter(os.path.basename(m[0]) for m in allm)); print(len(allm)); sys.exit()

# ---------------------------------------------------------------- base build
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
loader = importlib.machinery.SourceFileLoader('chk', V + '/bin/check'); spec = importlib.util.spec_from_loader('chk', loader); chk = importlib.util.module_from_spec(spec); os.environ['VERIF_REPO'] = R; loader.exec_module(chk)
chk.gen_version(GEN)
from concurrent.futures import ThreadPoolExecutor
libs = [f for d in D if os.path.isdir(os.path.join(R, 'src', d)) for f in [os.path.join(R, 'src', d, x) for x in sorted(os.listdir(os.path.join(R, 'src', d)))] if f.endswith('.cpp')]
def comp(args):
    src, o, fl = args
    if os.path.exists(o) and os.path.getmtime(o) > os.path.getmtime(src): return
    r = sh(['clang++'] + flags(fl) + ['-c', src, '-o', o])
    if r.returncode: print(r.stdout.decode()[-2000:]); os._exit(2)
props = sorted(p for p in PROPS if not PROPS[p].get('defs'))
jobs = []
for fl in FL:
    os.makedirs(O + '/' + fl, exist_ok=True)
    jobs += [(f, '%s/%s/%s.o' % (O, fl, os.path.basename(f)), fl) for f in libs]
    jobs += [(V + '/harness/' + h, '%s/%s/H_%s.o' % (O, fl, h), fl) for h in ('pbt.cpp', 'gen_pvd.cpp')]
jobs += [(V + '/tests/' + PROPS[p]['tests'][0], '%s/%s.o' % (O, p), PROPS[p].get('flavor', 'asan')) for p in props]
with ThreadPoolExecutor(8) as ex: list(ex.map(comp, jobs))
def linkso(fl, d, repl=None, o=None):
    objs = ['%s/%s/%s.o' % (O, fl, os.path.basename(f)) for f in libs]
    if repl: objs = [x for x in objs if os.path.basename(x) != os.path.basename(repl) + '.o'] + [o]
    return sh(['clang++'] + FL[fl].split() + ['-shared', '-o', d + '/libpvdm_%s.so' % fl] + objs + ['-lCom', '-lpthread'])
for fl in FL:
    d = '%s/base' % O; os.makedirs(d, exist_ok=True); r = linkso(fl, d); assert r.returncode == 0, r.stdout
def lp(p):
    fl = PROPS[p].get('flavor', 'asan')
    r = sh(['clang' if fl == 'tsan' else 'clang++'] + FL[fl].split() + ['%s/%s.o' % (O, p), '%s/%s/H_pbt.cpp.o' % (O, fl), '%s/%s/H_gen_pvd.cpp.o' % (O, fl), '-rdynamic', '-o', O + '/' + p, '-L%s/base' % O, '-lpvdm_' + fl, '-lCom', '-lpthread', '-lstdc++', '-lm'])
    assert r.returncode == 0, r.stdout
with ThreadPoolExecutor(8) as ex: list(ex.map(lp, props))
print('base built', len(allm), 'mutants', flush=True)
done = set()
rf = O + '/results.jsonl'
if os.path.exists(rf): done = {json.loads(l)['id'] for l in open(rf)}
if a.only: done = set()
lock = threading.Lock()
def run(p, d, scale, workers=2):
    fl = PROPS[p].get('flavor', 'asan')
    os.makedirs(d + '/v/evidence', exist_ok=True)
    env = dict(os.environ, LD_LIBRARY_PATH=d)
    try:
        r = sh([O + '/' + p, '--prop', p, '--tier', 'quick', '--seed', '1', '--verif', d + '/v', '--known', V + '/known_findings.txt', '--rule', 'x', '--desc', 'x', '--fast', '--scale', scale, '--workers', str(workers)], env=env, timeout=150)
    except subprocess.TimeoutExpired: return 'timeout', ''
    if r.returncode == 0: return None, ''
    m = re.search(r'VIOLATION.*', r.stdout.decode(errors='replace')); return r.returncode, (m.group() if m else r.stdout.decode(errors='replace')[-200:])
def one(m):
    i = mid(m); f, op, ln, s, e, rep = m
    d = O + '/m_' + hashlib.md5(i.encode()).hexdigest()[:10]; os.makedirs(d, exist_ok=True)
    src = open(f).read(); new = src[:s] + rep + src[e:]
    rec = dict(id=i, file=os.path.relpath(f, R), line=ln, op=op, old=src[s:e][:200], new=rep[:200], ctx=src.split('\n')[ln - 1].strip()[:200])
    try:
        mf = d + '/' + os.path.basename(f); open(mf, 'w').write(new)
        for fl in ('asan',):
            o = d + '/' + fl + '.o'
            # the mutated file's own directory first, so that "x.h" resolves as before
            r = sh(['clang++', '-I' + os.path.dirname(f)] + flags(fl) + ['-c', mf, '-o', o])
            if r.returncode: rec['res'] = 'nocompile'; return rec
            if linkso(fl, d, f, o).returncode: rec['res'] = 'nolink'; return rec
        first = FIRST.get(os.path.basename(f), '').split()
        order = first + [p for p in props if p not in first]
        stages = [(first, a.scale), ([p for p in order if p not in first], a.scale), (first, '1')]
        tsan = False
        for ps, sc in stages:
            for p in ps:
                if PROPS[p].get('flavor') == 'tsan':
                    if not tsan:
                        o = d + '/tsan.o'; r = sh(['clang++', '-I' + os.path.dirname(f)] + flags('tsan') + ['-c', mf, '-o', o]); linkso('tsan', d, f, o); tsan = True
                rc, why = run(p, d, sc)
                if rc is not None: rec.update(res='killed', by=p, scale=sc, why=why[:300]); return rec
        rec['res'] = 'survived'
    finally: shutil.rmtree(d, ignore_errors=True)
    return rec
q = [m for m in allm if mid(m) not in done]
def w(m):
    if os.path.exists(O + '/STOP'): return
    while os.path.exists(O + '/PAUSE'): time.sleep(5)
    r = one(m)
    if r:
        with lock:
            open(rf, 'a').write(json.dumps(r) + '\n')
            if a.only or r['res'] == 'survived': print(r['res'], r['id'], '|', r['ctx'], '|', r['old'].replace('\n', ' ')[:80], '->', r['new'].replace('\n', ' ')[:80], r.get('by', ''), r.get('why', '')[:150], flush=True)
with ThreadPoolExecutor(a.jobs) as ex: list(ex.map(w, q))
