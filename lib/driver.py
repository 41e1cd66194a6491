"""Bounded symbolic checking of the real C sources with CBMC.

One Harness = one C entry point in harness/, linked with the repository's
current sources (rebuilt with goto-cc on every run).  Outcome of a harness:
  ok         every obligation discharged by the solver (incl. unwinding
             assertions), every reachability goal reached, and the goal's model
             replayed on the natively compiled code without disagreement
  violation  the solver produced a model and the native build of the same
             harness over the same sources fails on it
  error      anything else (time-out, unreproducible model, vacuity, ...)
"""
import json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
MEM_GB = int(os.environ.get('VERIF_MEM_GB', '10'))


class Harness:
    def __init__(self, name, src, fn, repo=(), unwind=8, unwindset=(), defs=(), flags=(),
                 stubs=(), libc=True, timeout=240, bounds='', assumptions=(), thorough=None,
                 tiers=('quick', 'thorough'), goals=None, extra_src=(), native_flags=(), solver=None,
                 repo_defs=(), libs=(), retries=2, native=True, leak=False, cov_goals_optional=(), object_bits=11, fs=0, probe=None, shadow=()):
        self.__dict__.update(locals())
        del self.__dict__['self']

    def at(self, tier):
        d = dict(self.__dict__)
        th = d.pop('thorough')
        if tier == 'thorough' and th:
            d.update(th)
        return Harness(thorough=None, **d)


def sh(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    def lim():
        os.setsid()
        if mem_gb:
            b = mem_gb << 30
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=lim, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            p.kill()
        o, e = p.communicate()
        return -9, o, e, True


def prepare_config(work):
    """the two headers the build generates, made from /repo's templates"""
    cfg = os.path.join(work, 'cfg', 'config')
    os.makedirs(cfg, exist_ok=True)
    src = os.path.join(REPO, 'inc', 'config')
    for f in os.listdir(src) if os.path.isdir(src) else []:
        if not f.endswith('.in'):
            continue
        out = []
        for line in open(os.path.join(src, f), errors='replace'):
            m = re.match(r'\s*#\s*cmakedefine(01)?\s+(\w+)(.*)', line)
            if m:
                if 'HAVE_PTHREAD_SETNAME_NP' in m.group(2) or 'BUILD' in m.group(2):
                    line = '#define %s 1\n' % m.group(2)
                else:
                    line = '/* #undef %s */\n' % m.group(2)
            line = re.sub(r'@[A-Za-z_]*@', '0', line)
            out.append(line)
        open(os.path.join(cfg, f[:-3]), 'w').writelines(out)
    return os.path.join(work, 'cfg')


BASE_DEFS = ['-D_DEBUG', '-D_GNU_SOURCE', '-DHAVE_PTHREAD_SETNAME_NP=1', '-D__NO_CTYPE', '-DLCU_VERIF=1']


LIB_STUBS = {'memx': ['memcpy'], 'alloc': ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', '__strdup', '__strndup']}


_DEFS = None


def repo_definitions():
    """function name -> repository source file that defines it (portable sources only)"""
    global _DEFS
    if _DEFS is None:
        _DEFS = {}
        for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(root, f), REPO)
                if not f.endswith('.c') or 'win' in rel:
                    continue
                txt = open(os.path.join(REPO, rel), errors='replace').read()
                for m in re.finditer(r'^[A-Za-z_][\w \t\*]*?\b(\w+)\s*\([^;{}]*?\)\s*\{', txt, re.M):
                    _DEFS.setdefault(m.group(1), rel)
    return _DEFS


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = os.path.join(VERIF, '.work', '%s-%s-%d' % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cfg = prepare_config(self.work)
        self.replays = os.path.join(VERIF, 'replays', prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.lock = threading.Lock()
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def src(self, h, f):
        o = os.path.join(self.work, h.name, 'shadow', f)
        self.incs(h)
        return o if os.path.exists(o) else os.path.join(REPO, f)

    def incs(self, h=None):
        sd = []
        if h is not None and h.shadow:
            # a copy of a file with one size constant made smaller (stated in the bounds)
            root = os.path.join(self.work, h.name, 'shadow')
            if not os.path.isdir(root):
                for f, pat, rep in h.shadow:
                    o = os.path.join(root, f)
                    os.makedirs(os.path.dirname(o), exist_ok=True)
                    i = o if os.path.exists(o) else os.path.join(REPO, f)
                    t = re.sub(pat, rep, open(i, errors='replace').read())
                    open(o, 'w').write(t)
            sd = ['-I' + os.path.join(root, 'inc')]
        return sd + ['-I' + self.cfg, '-I' + os.path.join(REPO, 'inc'), '-I' + os.path.join(VERIF, 'lib'),
                '-I' + os.path.join(VERIF, 'harness'), '-I' + REPO]

    # ---- building -------------------------------------------------------
    def build_goto(self, h, d):
        objs = []
        srcs = [os.path.join(VERIF, 'harness', h.src)] + [os.path.join(VERIF, 'harness', s) for s in h.extra_src]
        srcs += [os.path.join(VERIF, 'lib', 'env_%s.c' % l) for l in h.libs]
        if h.libc:
            srcs.append(os.path.join(VERIF, 'lib', 'libc_models.c'))
        allsrc = [(s, h.defs) for s in srcs] + [(self.src(h, s), tuple(h.defs) + tuple(h.repo_defs)) for s in h.repo]
        for i, (s, defs) in enumerate(allsrc):
            o = os.path.join(d, '%d.gb' % i)
            cmd = ['goto-cc', '-c', '-Dinline=', '-o', o, s] + BASE_DEFS + list(defs) + self.incs(h)
            rc, out, err, to = sh(cmd, timeout=120)
            if rc != 0:
                return None, 'goto-cc failed on %s: %s' % (s, (out + err).decode(errors='replace')[-1500:])
            objs.append(o)
        exe = os.path.join(d, 'h.gb')
        for rnd in range(5):
            rc, out, err, to = sh(['goto-cc', '-o', exe, '--function', h.fn] + objs, timeout=120)
            if rc != 0:
                return None, 'goto-cc link failed: %s' % (out + err).decode(errors='replace')[-1500:]
            # code of the repository which the listed files have come to need is linked in too
            rc, out, err, to = sh(['goto-instrument', '--drop-unused-functions', '--list-undefined-functions', exe], timeout=120)
            more = []
            for n in out.decode(errors='replace').split():
                f = repo_definitions().get(n)
                if f and f not in h.repo and f not in more:
                    more.append(f)
            if not more:
                break
            for f in more:
                o = os.path.join(d, '%d.gb' % len(objs))
                cmd = ['goto-cc', '-c', '-Dinline=', '-o', o, self.src(h, f)] + BASE_DEFS + list(h.defs) + list(h.repo_defs) + self.incs(h)
                rc, out, err, to = sh(cmd, timeout=120)
                if rc != 0:
                    return None, 'goto-cc failed on %s: %s' % (f, (out + err).decode(errors='replace')[-1500:])
                objs.append(o)
            h.repo = list(h.repo) + more
        return exe, None

    def build_native(self, h, d):
        objs = []
        srcs = [os.path.join(VERIF, 'harness', h.src)] + [os.path.join(VERIF, 'harness', s) for s in h.extra_src]
        san = ['-g', '-O0', '-fno-builtin', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
               '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-w', '-std=gnu11', '-DVERIF_REPLAY']
        allsrc = [(s, h.defs) for s in srcs] + [(self.src(h, s), tuple(h.defs) + tuple(h.repo_defs)) for s in h.repo]
        rename = []
        stubs = list(h.stubs)
        for l in h.libs:
            stubs += LIB_STUBS.get(l, [])
        allsrc += [(os.path.join(VERIF, 'lib', 'env_%s.c' % l), h.defs) for l in h.libs]
        for s in stubs:
            rename += ['--redefine-sym', '%s=vf_%s' % (s, s)]
        for i, (s, defs) in enumerate(allsrc):
            o = os.path.join(d, 'n%d.o' % i)
            cmd = ['gcc', '-c', '-o', o, s] + san + BASE_DEFS + list(defs) + list(h.native_flags) + self.incs(h)
            rc, out, err, to = sh(cmd, timeout=120)
            if rc != 0:
                return None, 'gcc failed on %s: %s' % (s, (out + err).decode(errors='replace')[-1500:])
            if rename and '/lib/env_' not in s:
                rc, out, err, to = sh(['objcopy'] + rename + [o], timeout=60)
                if rc != 0:
                    return None, 'objcopy: ' + err.decode()
            objs.append(o)
        exe = os.path.join(d, 'native')
        cmd = ['gcc', '-o', exe, '-DVF_ENTRY=' + h.fn, os.path.join(VERIF, 'lib', 'replay.c')] + \
              ['-g', '-fsanitize=address,undefined'] + objs + ['-lpthread', '-ldl', '-lm']
        rc, out, err, to = sh(cmd, timeout=120)
        if rc != 0:
            return None, 'native link failed: ' + (out + err).decode(errors='replace')[-1500:]
        return exe, None

    def replay(self, exe, vals, d, tag, hang_s=10):
        """-> (verdict, text); verdict in fail / pass / assume / hang"""
        f = os.path.join(d, 'in_%s.txt' % tag)
        with open(f, 'w') as fh:
            fh.write(''.join('%d\n' % v for v in vals))
        worst = ('pass', '')
        for fill in ('0xbe', '0x00', '0xff'):
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                                   'detect_stack_use_after_return=0:malloc_fill_byte=%d:max_malloc_fill_size=1048576:'
                                   'detect_odr_violation=0' % int(fill, 16))
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98:halt_on_error=1'
            rc, o, e, to = sh([exe, f], timeout=hang_s, cwd=d, env=env)
            txt = (o + e).decode(errors='replace')
            if to:
                return 'hang', txt[-3000:]
            if rc == 43:
                worst = ('assume', txt[-3000:])
                continue
            if rc != 0:
                return 'fail', txt[-6000:]
            if worst[0] != 'assume':
                worst = ('pass', txt[-3000:])
        return worst

    def run_probe(self, h, d):
        """compile and run a small native program over the same sources that
        prints -D options (where a value lives in an opaque handle, ...)"""
        exe = os.path.join(d, 'probe')
        cmd = ['gcc', '-std=gnu11', '-w', '-O0', '-ffunction-sections', '-Wl,--gc-sections', '-o', exe, os.path.join(VERIF, 'harness', h.probe)] + BASE_DEFS + list(h.defs) + list(h.repo_defs) + self.incs(h) + \
              [self.src(h, s) for s in h.repo] + ([os.path.join(VERIF, 'lib', 'env_log.c')] if 'log' in h.libs else []) + ['-lpthread', '-lm', '-ldl']
        rc, o, e, to = sh(cmd, timeout=120)
        if rc != 0:
            return 'probe does not build: ' + (o + e).decode(errors='replace')[-600:]
        rc, o, e, to = sh([exe], timeout=20, cwd=d)
        if rc == 0 and not to:
            h.defs = list(h.defs) + o.decode().split()
        return None

    # ---- solving --------------------------------------------------------
    def solve(self, h, exe, unwind, timeout):
        cmd = ['cbmc', exe, '--json-ui', '--trace', '--unwind', str(unwind), '--unwinding-assertions',
               '--drop-unused-functions', '--no-malloc-may-fail', '--slice-formula', '--verbosity', '8', '--object-bits', str(h.object_bits)]
        if h.solver:
            cmd += ['--sat-solver', h.solver]
        if h.unwindset:
            cmd += ['--unwindset', ','.join(h.unwindset)]
        if h.fs:
            cmd += ['--max-field-sensitivity-array-size', str(h.fs)]
        cmd += list(h.flags)
        t = time.time()
        rc, o, e, to = sh(cmd, timeout=timeout, mem_gb=MEM_GB)
        return cmd, rc, o, e, to, time.time() - t

    def run_harness(self, h0):
        h = h0.at(self.tier)
        res = dict(harness=h.name, fn=h.fn, bounds=h.bounds, status='error', detail='', obligations=0, discharged=0,
                   goals=0, goals_reached=0, steps=0, vccs=0, vccs_left=0, vars=0, clauses=0, queries=0, solver_s=0.0, wall_s=0.0,
                   functions=[], sliced=0, witness_replayed=0, unwind=h.unwind)
        t0 = time.time()
        d = os.path.join(self.work, h.name)
        os.makedirs(d)
        try:
            self._run(h, d, res)
        except Exception as ex:  # machinery failure is an error of the check, never a pass
            res['status'] = 'error'
            res['detail'] = 'driver exception: %r' % (ex,)
        res['wall_s'] = round(time.time() - t0, 2)
        return res

    def _run(self, h, d, res):
        if h.probe:
            err = self.run_probe(h, d)
            if err:
                res['detail'] = err
                return
        exe, err = self.build_goto(h, d)
        if err:
            res['detail'] = err
            return
        native = None
        unwind = h.unwind
        deadline = time.time() + h.timeout
        for attempt in range(h.retries + 1):
            left = deadline - time.time()
            if left < 5:
                res['detail'] = 'time budget exhausted'
                return
            cmd, rc, o, e, to, wall = self.solve(h, exe, unwind, left)
            res['checker_cmd'] = ' '.join(os.path.basename(c) if i == 1 else c for i, c in enumerate(cmd))
            res['unwind'] = unwind
            if to:
                res['detail'] = 'solver time-out after %ds' % wall
                return
            try:
                js = json.loads(o.decode(errors='replace'))
            except Exception:
                res['detail'] = 'no parsable solver output (rc %d): %s' % (rc, re.sub(r'\s+', ' ', (o[-200:] + e[-200:]).decode(errors='replace')))
                return
            self.stats(js, res)
            results = None
            for m in js:
                if 'result' in m:
                    results = m['result']
            if results is None:
                msgs = [m.get('messageText', '') for m in js if m.get('messageType') in ('ERROR', 'WARNING')]
                res['detail'] = 'no result: ' + ' | '.join(msgs)[-800:]
                return
            goals = [r for r in results if r['description'].startswith('VF_REACH')]
            obl = [r for r in results if not r['description'].startswith('VF_REACH')]
            failed = [r for r in obl if r['status'] == 'FAILURE']
            other = [r for r in obl if r['status'] not in ('FAILURE', 'SUCCESS')]
            unw = [r for r in failed if '.unwind.' in r['property'] or 'recursion' in r['property']]
            real = [r for r in failed if r not in unw]
            res.update(obligations=len(obl), discharged=sum(r['status'] == 'SUCCESS' for r in obl), goals=len(goals),
                       goals_reached=sum(r['status'] == 'FAILURE' for r in goals))
            res['functions'] = sorted({(r.get('sourceLocation') or {}).get('function', '') for r in results
                                       if self.in_repo((r.get('sourceLocation') or {}).get('file', ''), (r.get('sourceLocation') or {}).get('workingDirectory', ''))} - {''})
            if not native and h.native:
                native, err = self.build_native(h, d)
                if err:
                    res['detail'] = err
                    return
            # 1. genuine failures: replay, VF assertions first
            real.sort(key=lambda r: 0 if r['description'].startswith('VF:') else 1)
            notes = []
            for k, r in enumerate(real + unw):
                vals = inputs_of(r)
                verdict, txt = self.replay(native, vals, d, 'cex%d_%d' % (attempt, k)) if h.native else ('fail', '')
                hang_ok = verdict == 'hang'
                if verdict == 'fail' or hang_ok:
                    # an assertion the native run trips is a real violation whatever CBMC's complaint was
                    self.save_replay(h, d, native, vals, r, txt, verdict, res)
                    res['status'] = 'violation'
                    res['detail'] = r['description'] + (' [native run does not terminate]' if hang_ok else '')
                    return
                notes.append('%s (%s:%s) not reproduced natively [%s]' % (r['description'], (r.get('sourceLocation') or {}).get('function'),
                                                                        (r.get('sourceLocation') or {}).get('line'), verdict))
                if k > 12:
                    break
            if real:
                res['detail'] = 'counterexample(s) did not reproduce: ' + ' ; '.join(notes)[:1500]
                return
            if unw:
                unwind = unwind * 2
                res['detail'] = 'unwinding bound too small: ' + ' ; '.join(r['property'] for r in unw)[:300]
                continue
            if other:
                res['detail'] = 'undecided: ' + ' ; '.join(r['property'] for r in other)[:300]
                return
            break
        else:
            return
        # 2. reachability (vacuity) goals, each model replayed natively
        missing = [g['description'] for g in goals if g['status'] != 'FAILURE' and g['description'][9:] not in h.cov_goals_optional]
        if not goals or missing:
            res['detail'] = 'vacuous: goals not reachable: %s' % missing
            return
        for k, g in enumerate(goals):
            if g['status'] != 'FAILURE' or not h.native:
                continue
            vals = inputs_of(g)
            verdict, txt = self.replay(native, vals, d, 'goal%d' % k)
            label = g['description'][9:]
            if verdict in ('fail', 'hang'):
                # the real code fails on a concrete in-bounds input although the model passed
                self.save_replay(h, d, native, vals, g, txt, verdict, res)
                res['status'] = 'violation'
                res['detail'] = 'native run fails on the model of goal "%s"' % label
                return
            if ('VF-REACHED ' + label) not in txt:
                res['detail'] = 'encoding disagrees with native run: goal "%s" not reached natively [%s] %s' % (label, verdict, txt[-300:])
                return
            res['witness_replayed'] += 1
            res.setdefault('sample', {'goal': label, 'inputs': vals[:64]})
        res['status'] = 'ok'
        res['detail'] = ''

    def in_repo(self, f, wd):
        if not f or f.startswith('<'):
            return False
        p = os.path.normpath(f if os.path.isabs(f) else os.path.join(wd or '', f))
        return p.startswith(os.path.normpath(REPO) + os.sep) or '/shadow/src/' in p

    def stats(self, js, res):
        for m in js:
            t = m.get('messageText', '') if isinstance(m, dict) else ''
            x = re.search(r'size of program expression: (\d+) steps', t)
            if x:
                res['steps'] = int(x.group(1))
            x = re.search(r'slicing removed (\d+) assignments', t)
            if x:
                res['sliced'] = int(x.group(1))
            x = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if x:
                res['vccs'], res['vccs_left'] = int(x.group(1)), int(x.group(2))
            x = re.search(r'(\d+) variables, (\d+) clauses', t)
            if x:
                res['vars'], res['clauses'] = int(x.group(1)), int(x.group(2))
            if t.startswith('SAT checker') or 'instance is' in t:
                res['queries'] += 1
            x = re.search(r'Runtime Solver: ([0-9.e+-]+)s', t)
            if x:
                res['solver_s'] += float(x.group(1))

    def save_replay(self, h, d, native, vals, r, txt, verdict, res):
        rd = os.path.join(self.replays, h.name)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        with open(os.path.join(rd, 'inputs.txt'), 'w') as f:
            f.write(''.join('%d\n' % v for v in vals))
        shutil.copy(native, os.path.join(rd, 'native'))
        loc = r.get('sourceLocation') or {}
        with open(os.path.join(rd, 'report.txt'), 'w') as f:
            f.write('property   %s\nharness    %s (%s in harness/%s)\nviolated   %s\nat         %s:%s in %s\nbounds     %s\n'
                    'inputs     %s\nnative run %s\n\n%s\n' % (self.prop, h.name, h.fn, h.src, r['description'], loc.get('file'), loc.get('line'),
                    loc.get('function'), h.bounds, vals, verdict, txt))
        with open(os.path.join(rd, 'replay.sh'), 'w') as f:
            f.write('#!/bin/sh\n# re-runs the counterexample on the natively compiled code (non-zero exit = violated)\n'
                    'cd "$(dirname "$0")" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 exec timeout 20 ./native inputs.txt\n')
        os.chmod(os.path.join(rd, 'replay.sh'), 0o755)
        res['replay'] = os.path.join(rd, 'replay.sh')
        res['inputs'] = vals


def inputs_of(r):
    vals = []
    for s in r.get('trace', []):
        if s.get('stepType') == 'input' and s.get('inputID') == 'nd':
            v = s['values'][0]
            if 'binary' in v:
                b = v['binary']
                n = int(b, 2)
                if v.get('type', '').startswith(('signed', 'int', 'long', 'short')) or (v.get('data', '').startswith('-')):
                    if b[0] == '1':
                        n -= 1 << len(b)
                vals.append(n)
            else:
                dd = v.get('data', '0')
                vals.append({'TRUE': 1, 'FALSE': 0}.get(dd.upper(), 0) if not re.match(r'-?\d+$', dd) else int(dd))
    return vals


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) harness=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def run_property(prop, spec, tier, seed):
    run = Run(prop, tier, seed)
    hs = [h for h in spec['harnesses'] if tier in h.tiers]
    only = os.environ.get('VERIF_ONLY')
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    hs.sort(key=lambda h: -h.at(tier).timeout)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(run.run_harness, h) for h in hs]
            results = []
            for f in futs:
                r = f.result()
                results.append(r)
                print('%-9s %-34s %6.1fs obl=%d/%d goals=%d/%d vars=%d %s' % (r['status'], r['harness'], r['wall_s'], r['discharged'],
                      r['obligations'], r['goals_reached'], r['goals'], r['vars'], r['detail'][:300]), flush=True)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            run.close()
    viol = [r for r in results if r['status'] == 'violation']
    errs = [r for r in results if r['status'] == 'error']
    for p, what in spec.get('known', []):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    steps = sum(r['steps'] for r in results)
    cov = dict(
        states=steps,
        transitions=sum(r['steps'] - r['sliced'] for r in results),
        traces_validated_against_impl=sum(r['witness_replayed'] for r in results) + len(viol),
        samples=[dict(harness=r['harness'], **r['sample']) for r in results if r.get('sample')][:8],
        meaning='states = symbolic program steps in the unrolled encodings; transitions = assignments left after slicing; '
                'traces_validated = solver models re-run on the natively compiled code with the same outcome',
        functions_encoded=sorted({f for r in results for f in r['functions']}),
        queries_discharged=sum(r['queries'] for r in results),
        obligations=sum(r['obligations'] for r in results),
        obligations_discharged=sum(r['discharged'] for r in results),
        reachability_goals=sum(r['goals'] for r in results),
        reachability_goals_reached=sum(r['goals_reached'] for r in results),
        solver_s=round(sum(r['solver_s'] for r in results), 2),
        sat_clauses=sum(r['clauses'] for r in results),
        bounds={r['harness']: r['bounds'] + ' (unwind %d)' % r['unwind'] for r in results},
        outside_the_claim=spec.get('outside', ''),
        harnesses=[{k: r.get(k) for k in ('harness', 'status', 'detail', 'obligations', 'discharged', 'goals', 'goals_reached', 'steps', 'vccs',
                    'vccs_left', 'vars', 'clauses', 'queries', 'solver_s', 'wall_s', 'checker_cmd')} for r in results],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(spec.get('assumptions', [])) + sorted({a for h in hs for a in h.at(tier).assumptions}),
              wall_s=round(time.time() - run.t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if viol:
        for r in viol:
            print('VIOLATION property=%s replay=%s' % (prop, r['replay']))
            print('  harness %s: %s' % (r['harness'], r['detail']))
        return 1
    if errs:
        for r in errs:
            print('ERROR property=%s harness=%s %s' % (prop, r['harness'], r['detail'][:200]))
        return 2
    print('OK property=%s tier=%s harnesses=%d wall=%.1fs' % (prop, tier, len(results), time.time() - run.t0))
    return 0
