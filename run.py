#!/usr/bin/env python3
"""Runtime monitors for argtable3: build the library from /repo's working tree with sanitizers and the
allocation ledger, drive it with the workload of one property, and let the oracles decide.

  run.py C07              one check (VERIF_SEED, VERIF_TIER from the environment)
  run.py --setup          build everything the checks use
  run.py --replay FILE    run the recorded failing case again, verbosely
"""
import array, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
H = VERIF + '/harness'
BUILD = VERIF + '/build'
NCPU = max(1, min(8, os.cpu_count() or 1))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
ALLOC = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup']
LIBFLAGS = ['-std=gnu99', '-D_XOPEN_SOURCE=700', '-D_DEFAULT_SOURCE', '-w', '-g', '-I' + SRC]
GROUPS = {'parse': [], 'val': [], 'text': [], 'ds': [], 'hash': ['hash.c'], 'getopt': []}
SUB = ['parse', 'val', 'text', 'ds', 'hash', 'getopt']

from props import PROPS  # noqa: E402  (id -> Check parameters)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode('utf-8', 'replace')[-4000:])
    return r.stdout


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def lib_sources():
    return sorted(glob.glob(SRC + '/*.c'))


def src_all():
    return lib_sources() + sorted(glob.glob(SRC + '/*.h'))


def pmap(f, xs):
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(f, xs))


def into(name, make):
    """directory build/<name>, made once"""
    d = os.path.join(BUILD, name)
    if os.path.isdir(d):
        os.utime(d)
        return d
    os.makedirs(BUILD, exist_ok=True)
    t = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        make(t)
        try:
            os.rename(t, d)
        except OSError:
            if not os.path.isdir(d):
                raise
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return d


LIBS = {  # how the library is built: compiler, flags, ledger?
    'asan': (['gcc', '-O1'] + SAN, True),
    'longonly': (['gcc', '-O1', '-DARG_LONG_ONLY'] + SAN, True),
    'plain': (['gcc', '-O1'], True),
    'formA': (['gcc', '-O1'] + SAN, False),
    'formB': (['gcc', '-O1'], False),                                  # single file
    'formC': (['gcc', '-O1', '-DARG_REPLACE_GETOPT=0'], False),        # platform's option scanner
    'formD': (['gcc', '-O3', '-DNDEBUG'], False),                      # release
    'formE': (['clang', '-O2'], False),
    'formF': (['gcc', '-O2', '-funsigned-char'], False),               # as on platforms where char is unsigned
    'fuzz': (['clang', '-O1', '-fsanitize=fuzzer-no-link'] + SAN + ['-fno-sanitize=function'], True),
    'clangub': (['clang', '-O1', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-fsanitize-recover=function'], True),
}


def amalgamate(d):
    """the single-file distribution, by the repository's own script, in a scratch copy"""
    w = os.path.join(d, 'am')
    os.makedirs(w)
    for x in ('tools', 'src', 'LICENSE', 'README.md', 'tests', 'examples'):
        p = os.path.join(REPO, x)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(w, x), symlinks=True)
        elif os.path.exists(p):
            shutil.copy(p, os.path.join(w, x))
    subprocess.run(['bash', 'build', 'dist'], cwd=w + '/tools', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    out = os.path.join(w, 'dist', 'argtable3.c')
    if not os.path.exists(out) or not os.path.getsize(out):
        raise BuildError('tools/build dist made no argtable3.c')
    return out


def build_lib(kind):
    cc, ledger = LIBS[kind]
    inputs = src_all() + (sorted(glob.glob(REPO + '/tools/*')) if kind == 'formB' else [])

    def make(d):
        srcs = [amalgamate(d)] if kind == 'formB' else lib_sources()

        def one(s):
            o = os.path.join(d, os.path.basename(s)[:-2] + '.o')
            sh(cc + LIBFLAGS + ['-c', s, '-o', o])
            if ledger:
                sh(['objcopy'] + [a for n in ALLOC for a in ('--redefine-sym', f'{n}=vm_{n}')] + [o])
            return o
        pmap(one, srcs)
        shutil.rmtree(os.path.join(d, 'am'), ignore_errors=True)
    return into(f'lib-{kind}-{digest(inputs, kind + str(cc) + str(LIBFLAGS))}', make)


def build_bin(group):
    """group: parse|val|text|ds|hash|mem|memplain|oom|formA..E|fuzz -> path of the program"""
    kind = {'memplain': 'plain', 'memub': 'clangub', 'oom': 'plain', 'fuzz': 'fuzz', 'longonly': 'longonly'}.get(group, group if group.startswith('form') else 'asan')
    fuzz = group == 'fuzz'
    cxx = ['clang++' if fuzz else 'g++', '-std=c++17', '-O1', '-g', '-w', '-I' + SRC, '-I' + H] + (['-DVF_FUZZ'] if fuzz else [])
    jobs = [(cxx, f + '.cpp', f + '.o') for f in ('vf', 'val', 'model')]
    cs = ['ledger.c', 'priv.c']
    if group in ('mem', 'memplain', 'memub', 'fuzz'):
        jobs += [(cxx + [f'-Dg_props={g}_props', f'-Dglobal_init={g}_init'], f'p_{g}.cpp', f'p_{g}.o') for g in SUB]
        jobs.append((cxx, 'p_mem.cpp', 'p_mem.o'))
        cs.append('hash.c')
        if fuzz:
            jobs.append((cxx, 'fuzz.cpp', 'fuzz.o'))
    elif group.startswith('form'):
        jobs.append((cxx, 'p_form.cpp', 'p_form.o'))
    elif group == 'longonly':
        jobs.append((cxx, 'p_parse.cpp', 'p_parse.o'))
    else:
        jobs.append((cxx, f'p_{group}.cpp', f'p_{group}.o'))
        cs += GROUPS.get(group, [])
    jobs += [(['gcc', '-O1', '-g', '-w', '-I' + SRC], c, c[:-2] + '.o') for c in cs]
    hkey = digest([H + '/' + j[1] for j in jobs] + glob.glob(H + '/*.h') + glob.glob(SRC + '/*.h'), 'form' if group.startswith('form') else group)

    def make(d):
        pmap(lambda j: sh(j[0] + ['-c', H + '/' + j[1], '-o', os.path.join(d, j[2])]), jobs)
    hd = into(f'harness-{"form" if group.startswith("form") else group}-{hkey}', make)
    ld = build_lib(kind)

    def link(d):
        objs = sorted(glob.glob(hd + '/*.o')) + sorted(glob.glob(ld + '/*.o'))
        if fuzz:
            sh(['clang++', '-fsanitize=fuzzer'] + SAN + objs + ['-lm', '-o', d + '/vf'])
        elif kind == 'clangub':
            sh(['clang++', '-fsanitize=undefined'] + objs + ['-lm', '-o', d + '/vf'])
        else:
            sh(['g++'] + (SAN if kind in ('asan', 'formA', 'longonly') else []) + objs + ['-lm', '-o', d + '/vf'])
    return into(f'bin-{group}-{hkey}-{os.path.basename(ld)[-16:]}', link) + '/vf'


def prune():
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD)] if os.path.isdir(BUILD) else []
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
    for d in ds[120:]:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ numbers and strings of the sources (workload bias only)
def dictionary(path):
    ints, strs = set(), set()
    for p in src_all():
        t = open(p, encoding='utf-8', errors='replace').read()
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
        t = re.sub(r'//[^\n]*', ' ', t)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                b = m.group(1).encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace')
            except Exception:
                continue
            if 0 < len(b) <= 60 and b'\0' not in b:
                strs.add(b)
        t = re.sub(r'"((?:[^"\\\n]|\\.)*)"', ' ', t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", t):
            try:
                v = int(m.group(1), 16 if m.group(1)[:2].lower() == '0x' else 10)
            except ValueError:
                continue
            if 0 <= v <= 100000:
                ints.add(v)
    with open(path, 'w') as f:
        for v in sorted(ints):
            f.write(f'i {v}\n')
        for b in sorted(strs):
            f.write(f's {b.hex()}\n')
    return len(ints), len(strs)


# ------------------------------------------------------------------ known findings
def findings():
    out = []
    p = VERIF + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


ENV = {
    **({'VF_SLOW': os.environ['VF_SLOW']} if 'VF_SLOW' in os.environ else {}), 'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/nonexistent', 'LC_ALL': 'C', 'TZ': 'UTC',
    'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:quarantine_size_mb=64:max_free_fill_size=4096:allocator_may_return_null=0:hard_rss_limit_mb=3000:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99',
}


class Worker:
    def __init__(self, cmd, dir, tag, env=None):
        self.log = os.path.join(dir, tag + '.log')
        self.out = os.path.join(dir, tag + '.json')
        self.prog = os.path.join(dir, tag + '.prog')
        self.cmd = cmd + ['--out', self.out, '--progress', self.prog]
        self.f = open(self.log, 'wb')
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=self.f, stderr=self.f, env={**ENV, **(env or {})}, cwd=dir, start_new_session=True)

    def done(self):
        return self.p.poll() is not None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def index(self):
        try:
            return struct.unpack('<Q', open(self.prog, 'rb').read(8))[0] - 1
        except Exception:
            return -1

    def text(self):
        try:
            return open(self.log, 'rb').read()[-60000:].decode('utf-8', 'replace')
        except Exception:
            return ''

    def result(self):
        try:
            return json.load(open(self.out))
        except Exception:
            return None


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.P = PROPS[pid]
        self.start = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'run-{pid}-', dir=BUILD)
        self.dict = os.path.join(self.dir, 'dict')
        self.ndict = dictionary(self.dict)
        self.known = findings()
        self.cases = self.evals = 0
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.phases = []
        self.limit = self.start + (600 if tier == 'quick' else 6 * 3600)

    def base(self, exe, work, extra=()):
        c = [exe, work, '--seed', str(self.seed), '--dict', self.dict]
        k = ','.join(x[1] for x in self.known)
        if k:
            c += ['--known', k]
        return c + list(extra)

    def collect(self, w):
        r = w.result()
        if not r:
            return
        self.cases += r['cases']
        self.evals += r['evals']
        for k, v in r['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v
        if len(self.samples) < 4:
            self.samples += r['samples'][:4 - len(self.samples)]
        try:
            a = array.array('Q')
            a.frombytes(open(w.out + '.sig', 'rb').read())
            self.sigs.update(a)
        except Exception:
            pass

    # -------------------------------------------------------------- one phase: n cases of a workload on one program
    def phase(self, exe, work, n, extra=(), wrap=(), wall=None, label='', env=None):
        """returns None, or (index, message, command that shows it)"""
        wall = wall or self.P.get('wall', 300 if self.tier == 'quick' else 5400)
        nw = NCPU
        ws = []
        t0 = time.time()
        for k in range(nw):
            ws.append(Worker(list(wrap) + self.base(exe, work, ['--from', str(k), '--stride', str(nw), '--to', str(n), '--wall', str(wall)] + list(extra)), self.dir, f'{work}-{label}-{k}',
                             {'VF_DIGEST': os.path.join(self.dir, f'{work}-{label}-{k}.dig'), **(env or {})}))
        bad = None
        pending = list(range(nw))
        while pending and bad is None:
            for k in list(pending):
                if ws[k].done():
                    pending.remove(k)
                    if ws[k].p.returncode != 0:
                        bad = k
                        break
            if time.time() > t0 + wall + 120:
                break
            time.sleep(0.05)
        for k in pending:
            if not ws[k].done():
                ws[k].kill()
        before = self.cases
        for k in range(nw):
            if k != bad:
                self.collect(ws[k])
        self.phases.append({'what': label or work, 'cases': self.cases - before, 'seconds': round(time.time() - t0, 1)})
        if bad is None:
            return None
        return self.confirm(exe, work, ws[bad], bad, nw, extra, wrap, env)

    def confirm(self, exe, work, w, k, nw, extra, wrap, env):
        rc = w.p.returncode
        idx = w.index()
        txt = w.text()
        r = w.result()
        if rc == 3 and r and r.get('status') == 'fail':
            idx = r['idx']
        resource_end = rc in (-9, -15)
        if idx < 0 or rc == 2:
            raise BuildError(f'worker ended with {rc} outside any case:\n{txt[-3000:]}')
        tries = [['--from', str(idx), '--to', str(idx + 1)]]
        if idx != k:
            tries.append(['--from', str(k), '--stride', str(nw), '--to', str(idx + 1)])
        for rng in tries:
            cmd = list(wrap) + self.base(exe, work, rng + ['--verbose', '--lastonly'] + list(extra))
            try:
                q = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={**ENV, **(env or {})}, cwd=self.dir, timeout=600)
                qrc, qt = q.returncode, q.stdout.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired as e:
                qrc, qt = 97, (e.stdout or b'').decode('utf-8', 'replace')
            if qrc != 0:
                return idx, self.explain(qrc, qt), cmd, qt
        if resource_end or rc == 97:
            # killed from outside, or slow only once: not an observation about the code
            self.counters['cases given up (machine too slow or out of memory)'] = self.counters.get('cases given up (machine too slow or out of memory)', 0) + 1
            return None
        return idx, 'seen once, not on repetition: ' + self.explain(rc, txt), w.cmd, txt

    @staticmethod
    def explain(rc, t):
        m = re.search(r'VF-FAIL idx=\d+ (.*)', t)
        if m:
            return m.group(1)[:1500]
        if 'VF-HANG' in t or rc == 97:
            return 'the case did not finish within its CPU budget'
        for pat in (r'(ERROR: AddressSanitizer[^\n]*)', r'([^\n]*runtime error:[^\n]*)', r'(==\d+== (?:Invalid|Conditional|Use of|Syscall|Mismatched|Source and)[^\n]*)', r'([^\n]*Assertion [^\n]*)', r'(ERROR: libFuzzer[^\n]*)'):
            m = re.search(pat, t)
            if m:
                fr = re.search(r'(?:#\d+ 0x[0-9a-f]+ in|at 0x[0-9A-F]+:) (?!vm_|__|mem|str|free|realloc|operator)[^\n]*src/[^\n]*', t)
                return (m.group(1) + (' ' + fr.group(0).strip() if fr else ''))[:800]
        return f'ended with status {rc}: ' + t[-400:]

    def violation(self, v, exe_group):
        idx, msg, cmd, txt = v
        os.makedirs(VERIF + '/replays', exist_ok=True)
        name = f'{self.pid}-{self.seed}-{idx}'
        dd = f'{VERIF}/replays/{name}.dict'
        shutil.copy(self.dict, dd)
        rp = f'{VERIF}/replays/{name}.json'
        args = [dd if a == self.dict else a for a in cmd]
        with open(rp, 'w') as f:
            json.dump({'property': self.pid, 'message': msg, 'program': exe_group, 'index': idx, 'seed': self.seed, 'command': args, 'output': txt[-30000:]}, f, indent=1)
        print(f'{self.pid}: {msg}')
        i = txt.find('VF-CASE:')
        print('\n'.join((txt[i:] if i >= 0 else txt)[-3500:].splitlines()[-45:]))
        self.evidence(1)
        print(f'VIOLATION property={self.pid} replay={rp}', flush=True)
        return 1

    def evidence(self, bad):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        c = {k: v for k, v in sorted(self.counters.items())}
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.P['level'],
            'coverage': {
                'evaluations': self.evals, 'cases': self.cases, 'distinct_nontrivial': len(self.sigs), 'rule': self.P['rule'],
                'samples': self.samples or ['(none)'],
                'observed': c, 'phases': self.phases,
                'dictionary': {'numbers': self.ndict[0], 'strings': self.ndict[1]},
            },
            'assumptions': self.P.get('assumptions', []),
            'wall_s': round(time.time() - self.start, 1), 'violations': bad,
        }
        with open(f'{VERIF}/evidence/{self.pid}.json', 'w') as f:
            json.dump(ev, f, indent=1)

    # -------------------------------------------------------------- phases of the different kinds of check
    def run(self):
        P = self.P
        n = P['quick'] if self.tier == 'quick' else P['thorough']
        kind = P['kind']
        if kind == 'forms':
            return self.forms(n)
        if kind == 'oom':
            v = self.phase(build_bin('oom'), self.pid, n)
            return self.violation(v, 'oom') if v else self.ok()
        g = P['group']
        v = self.phase(build_bin(g), self.pid, n)
        if v:
            return self.violation(v, g)
        if P.get('longonly'):
            try:
                exe = build_bin('longonly')
            except BuildError as e:           # the ordinary form of the same tree builds
                return self.violation((0, 'the library cannot be built with ARG_LONG_ONLY: ' + (re.findall(r'[^\n]*(?:error|undefined reference)[^\n]*', str(e)) or [str(e)[-300:]])[0], ['--build', 'longonly'], str(e)), 'longonly')
            v = self.phase(exe, self.pid + 'L', n, label='long-only')
            if v:
                return self.violation(v, 'longonly')
        if P.get('valgrind') and shutil.which('valgrind'):
            m = P['valgrind'][0 if self.tier == 'quick' else 1]
            wrap = ['valgrind', '-q', '--error-exitcode=98', '--exit-on-first-error=yes', '--leak-check=no', '--num-callers=12', '--partial-loads-ok=yes', '--malloc-fill=0xa5', '--free-fill=0x5a']
            v = self.phase(build_bin('memplain'), self.pid, m, ['--budget', '400'], wrap, label='memcheck')
            if v:
                return self.violation(v, 'memplain')
            self.counters['cases under memcheck'] = self.phases[-1]['cases']
        if P.get('clangub') and shutil.which('clang'):
            try:
                exe = build_bin('memub')
            except BuildError:                # C26 is about the second compiler
                exe = None
            v = exe and (self.phase(exe, self.pid, P['clangub'][0 if self.tier == 'quick' else 1], label='clang-ub') or self.calls('clang-ub'))
            if v:
                return self.violation(v, 'memub')
        if self.tier == 'thorough' and P.get('fuzz'):
            v = self.fuzz(P['fuzz'])
            if v:
                return self.violation(v, 'fuzz')
        return self.ok()

    def calls(self, label):
        """calls through a pointer of another function type, which that build reports without stopping"""
        public = {'void (*)(void *)': 'reset', 'int (*)(void *, const char *)': 'scan', 'int (*)(void *)': 'check',
                  'void (*)(void *, struct _internal_arg_dstr *, int, const char *, const char *)': 'error'}
        for k in range(NCPU):
            w = os.path.join(self.dir, f'{self.pid}-{label}-{k}.log')
            t = open(w, 'rb').read().decode('utf-8', 'replace')
            for m in re.finditer(r"[^\n]*runtime error: call to function (\S+) through pointer to incorrect function type '([^']*)'", t):
                kind = public.get(m.group(2))
                key = f'callback-type-{kind}'
                if kind and any(x[:2] == (self.pid, key) for x in self.known):
                    self.counters['KNOWN:' + key] = self.counters.get('KNOWN:' + key, 0) + 1
                    continue
                return 0, m.group(0)[-400:], self.base(build_bin('memub'), self.pid, ['--from', str(k), '--stride', str(NCPU), '--to', '4000']), t[-4000:]
        return None

    def fuzz(self, seconds):
        exe = build_bin('fuzz')
        corpus = os.path.join(self.dir, 'corpus')
        os.makedirs(corpus)
        ps = []
        t0 = time.time()
        for k in range(NCPU):
            ad = os.path.join(self.dir, f'fz{k}-')
            cmd = [exe, corpus, f'-seed={self.seed * 100 + k + 1}', f'-max_total_time={seconds}', '-max_len=4096', '-timeout=60', '-rss_limit_mb=3000', f'-artifact_prefix={ad}', '-print_final_stats=1', '-reload=30', '-use_value_profile=1']
            f = open(os.path.join(self.dir, f'fz{k}.log'), 'wb')
            ps.append((subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=f, cwd=self.dir, start_new_session=True,
                                        env={**ENV, 'VF_PROP': self.pid, 'VF_DICT': self.dict, 'VF_KNOWN': ','.join(x[1] for x in self.known)}), f.name, ad))
        bad = None
        while any(p.poll() is None for p, _, _ in ps) and bad is None:
            for k, (p, _, _) in enumerate(ps):
                if p.poll() not in (None, 0):
                    bad = k
            if time.time() > t0 + seconds + 300:
                break
            time.sleep(0.2)
        runs = 0
        for p, lg, _ in ps:
            if p.poll() is None:
                p.terminate()
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            m = re.findall(rb'(?:number_of_executed_units: |#)(\d+)', open(lg, 'rb').read())
            runs += int(m[-1]) if m else 0
        self.phases.append({'what': 'coverage-guided search', 'cases': runs, 'seconds': round(time.time() - t0, 1), 'corpus': len(os.listdir(corpus))})
        self.counters['coverage-guided executions'] = runs
        if bad is None:
            return None
        txt = open(ps[bad][1], 'rb').read()[-60000:].decode('utf-8', 'replace')
        arts = glob.glob(ps[bad][2] + 'crash-*') + glob.glob(ps[bad][2] + 'timeout-*')
        if not arts:
            return None                       # out of memory, interrupted
        os.makedirs(VERIF + '/replays', exist_ok=True)
        keep = f'{VERIF}/replays/{self.pid}-{os.path.basename(arts[0])}'
        shutil.copy(arts[0], keep)
        cmd = [exe, keep]
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir, timeout=600,
                           env={**ENV, 'VF_PROP': self.pid, 'VF_DICT': self.dict, 'VF_KNOWN': ','.join(x[1] for x in self.known), 'VF_VERBOSE': '1'})
        qt = q.stdout.decode('utf-8', 'replace')
        if q.returncode == 0:
            if 'timeout-' in arts[0]:
                return None
            qt = txt
        return 0, self.explain(q.returncode, qt), cmd, qt

    def digests(self, label, work):
        return [open(os.path.join(self.dir, f'{work}-{label}-{k}.dig'), 'rb').read() for k in range(NCPU)]

    def forms(self, n):
        forms = {'C26': ['formA', 'formB', 'formD', 'formE'], 'C26P': ['formA', 'formC', 'formF']}
        what = {'formA': 'separate sources', 'formB': 'single file', 'formC': "platform's option scanner", 'formD': 'release build', 'formE': 'second compiler', 'formF': 'build with unsigned char'}
        cl = shutil.which('clang') is not None
        for work, fs in forms.items():
            m = n if work == 'C26' else n * 2
            ref = None
            for f in fs:
                if f == 'formE' and not cl:
                    continue
                try:
                    exe = build_bin(f)
                except BuildError as e:
                    if ref is None:
                        raise
                    # the separate sources build, this form of the same tree does not
                    return self.violation((0, f'the {what[f]} cannot be built: ' + (re.findall(r'[^\n]*(?:error|multiple definition|undefined reference)[^\n]*', str(e)) or [str(e)[-300:]])[0], ['--build', f], str(e)), f)
                keep = (self.cases, dict(self.counters), self.evals)
                v = self.phase(exe, work, m, label=f)
                if v:
                    return self.violation((v[0], f'{what[f]}: {v[1]}') + v[2:], f)
                d = self.digests(f, work)
                if ref is None:
                    ref, refexe = d, exe
                    continue
                got = self.cases - keep[0]
                self.cases, self.counters, self.evals = keep      # the same cases again
                for k in range(NCPU):
                    a, b = ref[k], d[k]
                    z = min(len(a), len(b)) // 8 * 8
                    if a[:z] == b[:z]:
                        continue
                    j = next(i for i in range(0, z, 8) if a[i:i + 8] != b[i:i + 8]) // 8
                    idx = k + j * NCPU
                    txt = ''
                    for e in (refexe, exe):
                        q = subprocess.run(self.base(e, work, ['--from', str(k), '--stride', str(NCPU), '--to', str(idx + 1), '--verbose', '--lastonly']), stdin=subprocess.DEVNULL,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=self.dir, timeout=600)
                        txt += ('VF-CASE:\n' if not txt else '') + f'--- {e}\n' + q.stdout.decode('utf-8', 'replace')[-12000:]
                    return self.violation((idx, f'{what["formA"]} and {what[f]} give different results ({work}, case {idx})',
                                           self.base(exe, work, ['--from', str(k), '--stride', str(NCPU), '--to', str(idx + 1), '--verbose', '--lastonly']), txt), f)
                self.counters[f'{work}: cases equal with the {what[f]}'] = got
        return self.ok()

    def ok(self):
        self.evidence(0)
        for p, k, d in self.known:
            if p == self.pid and self.counters.get('KNOWN:' + k):
                print(f'KNOWN-FINDING: property={p} {d}')
        print(f'{self.pid}: held on {self.cases} cases, {len(self.sigs)} distinct non-trivial, {time.time() - self.start:.0f} s')
        return 0


def main():
    a = sys.argv[1:]
    os.environ.pop('POSIXLY_CORRECT', None)
    os.makedirs(BUILD, exist_ok=True)
    if a and a[0] == '--setup':
        for g in ['parse', 'val', 'text', 'ds', 'hash', 'getopt', 'mem', 'memplain', 'memub', 'oom', 'longonly', 'formA', 'formB', 'formC', 'formD', 'formE', 'formF']:
            if g in ('formE', 'memub') and not shutil.which('clang'):
                continue
            try:
                build_bin(g)
            except BuildError as e:
                print(f'{g}: {e}')      # the check that needs it reports it
        return 0
    if a and a[0] == '--replay':
        r = json.load(open(a[1]))
        exe = build_bin(r['program'])
        cmd = r['command']
        if cmd[0] == '--build':
            print(r['program'], 'builds')
            return 0
        i = next(i for i, x in enumerate(cmd) if x.endswith('/vf'))
        cmd = cmd[:i] + [exe] + [x for x in cmd[i + 1:]]
        env = dict(ENV)
        if r['program'] == 'fuzz':
            env.update(VF_PROP=r['property'], VF_VERBOSE='1', VF_KNOWN=','.join(x[1] for x in findings()))
        return subprocess.run(cmd, env=env, cwd=BUILD).returncode
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid not in PROPS:
        print('unknown property', pid)
        return 2
    c = None
    try:
        c = Check(pid, tier if tier in ('quick', 'thorough') else 'quick', seed)
        return c.run()
    except BuildError as e:
        print('BUILD FAILED:', e)
        return 2
    finally:
        if c:
            shutil.rmtree(c.dir, ignore_errors=True)
        prune()


if __name__ == '__main__':
    sys.exit(main())
