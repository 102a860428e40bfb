#!/usr/bin/env python3
"""Mutation campaign (not a check): small automatic edits of /repo/src that still pass the repository's tests,
and which of the monitors notice them. Works in a scratch directory only.
  mutate.py OUTDIR COUNT SEED [scale] [file-regex]"""
import glob, os, random, re, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
from props import PROPS
OUT, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
SCALE = float(sys.argv[4]) if len(sys.argv) > 4 else 0.05
FR = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
os.makedirs(OUT, exist_ok=True)
rnd = random.Random(SEED)
REPO = '/repo'

def code_lines(text):
    """(line number, line) of lines with executable code"""
    out, incom, skip = [], False, []
    for i, l in enumerate(text.split('\n')):
        s = l.strip()
        if s.startswith('#if'):
            skip.append(bool(re.match(r'#\s*(ifdef\s+(ARG_REX_DEBUG|DEBUG)|if\s+0|if.*LIB_EXT1|ifdef _WIN|ifdef DRYRUN|ifdef GNU_COMP)', s)))
        elif s.startswith('#else') and skip:
            skip[-1] = not skip[-1] if 'x' else False
        elif s.startswith('#elif') and skip:
            skip[-1] = False
        elif s.startswith('#endif') and skip:
            skip.pop()
        if incom:
            if '*/' in s:
                incom = False
            continue
        if s.startswith('/*') and '*/' not in s:
            incom = True
            continue
        if s.startswith('#') or s.startswith('/*') or s.startswith('*') or s.startswith('//') or not s or any(skip):
            continue
        if re.match(r'(static |void |int |const |struct |typedef |extern |char |size_t |unsigned )[^=]*[({;]?$', s) and '=' not in s:
            continue
        out.append((i, l))
    return out

OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<-])<(?![<=])', '<='), (r'(?<![->])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<!\+)\+(?![+=])', '-'), (r'(?<!-)-(?![-=>])', '+'), (r'\+\+', '--'), (r'\+=', '-='), (r'(?<![\w.\'"])(\d+)(?![\w.\'"])', 'NUM'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'),
       (r'\bNULL\b', '0'), (r'(?<=if \()(.*)(?=\)\s*\{?$)', 'NEG'), (r'!(?=[\w(])', ''), (r'&(?![&=\w(*])', '|'), (r"'(\w)'", 'CH'), (r'\bTRUE\b|\btrue\b', '0'), (r'\bFALSE\b|\bfalse\b', '1')]

def mutants():
    ms = []
    for f in run.lib_sources():
        if not FR.search(os.path.basename(f)):
            continue
        t = open(f).read()
        for i, l in code_lines(t):
            l0, l = l, re.sub(r'/\*.*?\*/', '', l)
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if l[:m.start()].count('"') % 2:
                        continue
                    if rep == 'NUM':
                        rs = [str(int(m.group(1)) + 1)] + ([str(int(m.group(1)) - 1)] if int(m.group(1)) else [])
                    elif rep == 'NEG':
                        rs = ['!(' + m.group(1) + ')']
                    elif rep == 'CH':
                        rs = ["'" + chr(ord(m.group(1)) + 1) + "'"]
                    elif rep == '0' and m.group(0) == 'NULL':
                        continue
                    else:
                        rs = [rep]
                    for r in rs:
                        ms.append((f, i, l, l[:m.start()] + r + l[m.end():]))
            if re.match(r'\s*[\w>.*\[\]()+-]+(\(.*\)| [|&+-]?= .*|\+\+|--);\s*$', l) and 'return' not in l:
                ms.append((f, i, l, re.match(r'\s*', l).group(0) + ';'))
    return ms

def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

# the unchanged objects
base = run.build_lib('asan')
hd = sorted(glob.glob(V + '/build/harness-mem-*'), key=os.path.getmtime)[-1]
tb = OUT + '/tests'
if not os.path.isdir(tb):
    os.makedirs(tb)
    for f in glob.glob(REPO + '/tests/*.c'):
        sh(['gcc', '-O0', '-w', '-I' + run.SRC, '-I' + REPO + '/tests', '-c', f, '-o', tb + '/' + os.path.basename(f)[:-2] + '.o'])
    for f in run.lib_sources():
        sh(['gcc', '-O0', '-w', '-D_XOPEN_SOURCE=700', '-D_DEFAULT_SOURCE', '-std=gnu99', '-I' + run.SRC, '-c', f, '-o', tb + '/L_' + os.path.basename(f)[:-2] + '.o'])
DICT = OUT + '/dict'
run.dictionary(DICT)
KN = ','.join(x[1] for x in run.findings())

def one(a):
    n, (f, i, old, new) = a
    d = f'{OUT}/m{n}'
    os.makedirs(d)
    b = os.path.basename(f)[:-2]
    rec = {'n': n, 'file': b, 'line': i + 1, 'old': old.strip(), 'new': new.strip()}
    try:
        L = open(f).read().split('\n')
        L[i] = new
        src = d + '/' + b + '.c'
        open(src, 'w').write('\n'.join(L))
        r = sh(['gcc', '-O0', '-w', '-D_XOPEN_SOURCE=700', '-D_DEFAULT_SOURCE', '-std=gnu99', '-I' + run.SRC, '-c', src, '-o', d + '/t.o'])
        if r.returncode:
            rec['res'] = 'nocompile'
            return rec
        r = sh(['gcc', '-O1', '-w', '-D_XOPEN_SOURCE=700', '-D_DEFAULT_SOURCE', '-std=gnu99', '-I' + run.SRC, '-c', src, '-o', d + '/u.o'])
        r0 = sh(['gcc', '-O1', '-w', '-D_XOPEN_SOURCE=700', '-D_DEFAULT_SOURCE', '-std=gnu99', '-I' + run.SRC, '-c', f, '-o', d + '/v.o'])
        dis = [re.sub(rb'file format.*|/[^ ]*\.o', b'', sh(['objdump', '-drs', '-j', '.text', '-j', '.rodata', x]).stdout) for x in (d + '/u.o', d + '/v.o')]
        if dis[0] == dis[1]:
            rec['res'] = 'same code'
            return rec
        objs = [o for o in glob.glob(tb + '/*.o') if o != tb + '/L_' + b + '.o'] + [d + '/t.o']
        sh(['gcc'] + objs + ['-lm', '-o', d + '/t'])
        try:
            r = sh(['timeout', '20', d + '/t'], cwd=d, timeout=60)
        except subprocess.TimeoutExpired:
            rec['res'] = 'tests'
            return rec
        if r.returncode or b'FAILURES' in r.stdout or b'OK (' not in r.stdout:
            rec['res'] = 'tests'
            return rec
        ao = d + '/' + b + '.o'
        sh(run.LIBS['asan'][0] + run.LIBFLAGS + ['-c', src, '-o', ao])
        sh(['objcopy'] + [x for k in run.ALLOC for x in ('--redefine-sym', f'{k}=vm_{k}')] + [ao])
        ls = [o for o in glob.glob(base + '/*.o') if os.path.basename(o) != b + '.o'] + [ao]
        sh(['g++'] + run.SAN + glob.glob(hd + '/*.o') + ls + ['-lm', '-o', d + '/vf'])
        killed = []
        for p, q in PROPS.items():
            if q['kind'] != 'group':
                continue
            r = sh(['timeout', '120', d + '/vf', p, '--seed', str(SEED), '--to', str(max(200, int(q['quick'] * SCALE))), '--wall', '40', '--dict', DICT, '--known', KN, '--budget', '10'], env=run.ENV, cwd=d)
            if r.returncode:
                killed.append(p)
                if len(killed) >= 3 and os.environ.get('FAST', '1') == '1':
                    break
        rec['res'] = 'killed' if killed else 'SURVIVED'
        rec['by'] = killed
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)

ms = mutants()
rnd.shuffle(ms)
seen = set()
print(len(ms), 'mutants available', flush=True)
with ThreadPoolExecutor(8) as ex, open(OUT + f'/res-{SEED}.jsonl', 'w') as o:
    for r in ex.map(one, enumerate(ms[:COUNT])):
        o.write(json.dumps(r) + '\n')
        o.flush()
        if r['res'] == 'SURVIVED':
            print(f"{r['file']}:{r['line']}  {r['old']}  =>  {r['new']}", flush=True)
