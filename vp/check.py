#!/usr/bin/env python3
"""Decide one property: run every proof unit of the property against the
current /repo tree.

  check.py <property> [--tier quick|thorough] [--unit NAME] [--keep] [-v]

exit 0  every obligation explored was discharged
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  no unit of the property could be decided (no verdict)
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource
import shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
import annotate  # noqa

CDEFS = ['-D_FILE_OFFSET_BITS=64', '-DDEBUG', '-D_POSIX_C_SOURCE=2', '-DHAVE_GDB', '-DBZ_NO_STDIO']
CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--no-malloc-may-fail',
          '--no-pointer-primitive-check']
MEM_LIMIT = 12 << 30
VERBOSE = False


def sh(cmd, timeout, cwd=None, env=None, mem=MEM_LIMIT):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = -999
    return rc, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace'), time.time() - t0


def load_unit(path):
    txt = open(path).read()
    m = re.match(r'\s*/\*VP(.*?)VP\*/', txt, re.S)
    if not m:
        return None
    meta = json.loads(m.group(1))
    meta['path'] = path
    meta['name'] = os.path.basename(path)[:-2]
    return meta


def units_of(prop):
    res = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'units', '*.c'))):
        u = load_unit(f)
        if u and (u['property'] == prop or prop in u.get('also', [])):
            res.append(u)
    return res


def instances(u, tier):
    vs = u.get('variants') or [{'name': ''}]
    for v in vs:
        inst = dict(u)
        inst.update({k: x for k, x in v.items() if k not in ('name', 'defs')})
        inst['vdefs'] = v.get('defs', [])
        inst['iname'] = u['name'] + ('-' + v['name'] if v['name'] else '')
        if inst.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        yield inst


class Src:
    """scratch copies of the real tree"""
    def __init__(self, tmp):
        self.tmp = tmp
        self.plain = os.path.join(REPO, 'c')
        self.n = 0
        self.lock = threading.Lock()

    def annotated(self, anns, prune={}, nobits=(), drop=()):
        with self.lock:
            self.n += 1
            d = os.path.join(self.tmp, 'ann%d' % self.n)
        os.makedirs(d)
        for sub in ('src', 'include'):
            shutil.copytree(os.path.join(self.plain, sub), os.path.join(d, sub))
        byfile = {}
        for a in anns:
            byfile.setdefault(a['file'], []).append(a)
        for f, al in byfile.items():
            p = os.path.join(d, f)
            if not os.path.exists(p):
                raise annotate.Mismatch('file %s not found' % f)
            s = open(p, encoding='latin-1').read()
            s = annotate.annotate(s, al)
            open(p, 'w', encoding='latin-1').write(s)
        for f, roots in prune.items():
            p = os.path.join(d, f)
            s = open(p, encoding='latin-1').read()
            open(p, 'w', encoding='latin-1').write(annotate.prune(s, roots))
        if drop:
            for f in glob.glob(os.path.join(d, 'src', '*.c')) + glob.glob(os.path.join(d, 'include', '*.h')):
                s = open(f, encoding='latin-1').read()
                t = annotate.drop_bodies(s, drop)
                if t != s:
                    open(f, 'w', encoding='latin-1').write(t)
        for f in nobits:
            # one-bit fields become whole ones: goto-instrument cannot address a bit-field in a frame condition
            p = os.path.join(d, f)
            s = open(p, encoding='latin-1').read()
            open(p, 'w', encoding='latin-1').write(re.sub(r'(\bbool\s+\w+)\s*:\s*1\s*;', r'\1;', s))
        return d


def cflags(inst, root, mode):
    fl = ['-std=c99'] if not inst.get('gnu') else ['-std=gnu99']
    fl += CDEFS + ['-D' + mode] + ['-D' + d for d in inst.get('defs', []) + inst['vdefs']]
    fl += ['-I' + os.path.join(root, 'src'), '-I' + os.path.join(root, 'include'), '-I' + HERE,
           '-I' + os.path.join(ROOT, 'units'),
           '-I' + os.path.join(REPO, 'c/lib/libstemmer_c/include'), '-I' + os.path.join(REPO, 'c/lib/bzlib')]
    return fl


def parse_results(out):
    try:
        js = json.loads(out)
    except ValueError:
        return None
    res, solver, msgs = None, 0.0, []
    for e in js:
        if 'result' in e:
            res = e['result']
        mt = e.get('messageText', '')
        if mt:
            msgs.append(mt)
            m = re.match(r'Runtime (?:Solver|decision procedure): ([\d.]+)s', mt)
            if m:
                solver += float(m.group(1))
    nobody = sorted(set(re.findall(r'no body for (?:callee|function) [\'"`]?([\w$]+)', '\n'.join(msgs))))
    return res, solver, msgs, nobody


def classify(r):
    d = r.get('description', '')
    p = r.get('property', '')
    if d.startswith('REACH '):
        return 'reach'
    if 'unwinding assertion' in d or '.unwind.' in p or 'recursion' in d:
        return 'unwind'
    return 'obl'


class Unit:
    def __init__(self, inst, src, tmp, budget, tier):
        self.i, self.src, self.tier = inst, src, tier
        self.name = inst['iname']
        self.dir = os.path.join(tmp, 'u_' + self.name)
        os.makedirs(self.dir, exist_ok=True)
        self.budget = budget
        self.r = {'unit': self.name, 'title': inst.get('title', ''), 'functions': inst.get('functions', []),
                  'assume': inst.get('assume', []), 'status': None, 'obligations': 0, 'discharged': 0,
                  'solver_s': 0.0, 'notes': [], 'failed': []}

    def log(self, *a):
        if VERBOSE:
            print('   [%s]' % self.name, *a, flush=True)

    def goto_cc(self, root, mode, out, extra=()):
        srcs = [self.i['path']] + [os.path.join(root, s) for s in self.i.get('link', [])]
        cmd = ['goto-cc'] + cflags(self.i, root, mode) + list(extra) + ['-o', out, '--function', 'harness'] + srcs
        rc, o, e, t = sh(cmd, 120)
        if rc != 0:
            self.log('compile failed', (o + e)[-1500:])
            self.r['notes'].append('%s: does not compile against the current tree: %s' % (mode, (o + e).strip()[-400:]))
            return False
        return True

    def cbmc(self, goto, args, timeout):
        cmd = ['cbmc', goto, '--json-ui', '--drop-unused-functions'] + (os.environ.get('VP_CBMC_ARGS', '').split()) + args
        rc, o, e, t = sh(cmd, timeout)
        if rc == -999:
            return 'timeout', None, t
        pr = parse_results(o)
        if pr is None or pr[0] is None:
            self.log('cbmc error', rc, (o + e)[-1500:])
            return 'error', (o + e)[-600:], t
        return 'ok', pr, t

    def checks(self):
        return CHECKS + self.i.get('checks', [])

    # ---- deductive run -------------------------------------------------
    def proof(self):
        pf = self.i.get('proof', {})
        anns = self.i.get('loops', [])
        try:
            root = self.src.annotated(anns, self.i.get('prune', {}), self.i.get('nobits', [])) if anns or self.i.get('prune') else self.src.plain
        except annotate.Mismatch as ex:
            self.r['notes'].append('loop contracts no longer attach: %s' % ex)
            self.log('mismatch', ex)
            return 'inapplicable'
        g = os.path.join(self.dir, 'p.goto')
        if not self.goto_cc(root, 'VP_PROOF', g):
            return 'inapplicable'
        if self.i.get('replace'):
            # calls of functions proved elsewhere are checked against their contract
            rc, o, e, t = sh(['goto-instrument'] + sum([['--replace-calls', x] for x in self.i['replace']], []) + [g, g + '.r'], 120)
            if rc != 0:
                self.r['notes'].append('goto-instrument --replace-calls: ' + (o + e).strip()[-300:])
                return 'inapplicable'
            g = g + '.r'
        contracts = pf.get('contracts', [])
        if anns or contracts:
            g2 = os.path.join(self.dir, 'p2.goto')
            cmd = ['goto-instrument', '--dfcc', 'harness'] + (['--apply-loop-contracts'] if anns else []) + contracts + \
                ['--no-malloc-may-fail', g, g2]
            rc, o, e, t = sh(cmd, 300)
            if rc != 0:
                self.log('goto-instrument failed', (o + e)[-1500:])
                self.r['notes'].append('goto-instrument: ' + (o + e).strip()[-400:])
                return 'inapplicable'
            g = g2
        args = self.checks() + pf.get('args', [])
        if pf.get('unwind'):
            args += ['--unwind', str(pf['unwind'])]
        args += ['--unwinding-assertions']
        st, pr, t = self.cbmc(g, args, self.budget(pf.get('timeout', 240)))
        if st == 'timeout':
            self.r['notes'].append('deductive run timed out after %.0f s' % t)
            return 'inapplicable'
        if st == 'error':
            self.r['notes'].append('cbmc: %s' % pr)
            return 'inapplicable'
        return self.judge(pr, 'proof')

    def judge(self, pr, mode):
        res, solver, msgs, nobody = pr
        self.r['solver_s'] += solver
        allowed = set(self.i.get('nobody', []))
        bad = [f for f in nobody if f not in allowed and not f.startswith('nondet_') and f not in STD_NOBODY]
        if bad:
            self.r['notes'].append('functions without body or contract: %s' % ', '.join(bad))
            self.log('no body', bad)
        fails, unw, vac, n = [], [], [], 0
        odd = [r for r in res if r['status'] not in ('SUCCESS', 'FAILURE')]
        if odd and not any(r['status'] == 'FAILURE' and classify(r) == 'obl' for r in res):
            # out of memory or another solver failure: nothing was decided
            self.r['notes'].append('%s: %d obligations left %s by the solver' % (mode, len(odd), odd[0]['status']))
            self.log('undecided obligations', len(odd), odd[0]['status'])
            return 'inapplicable'
        for r in res:
            k = classify(r)
            if k == 'reach':
                if r['status'] != 'FAILURE':
                    vac.append(r['description'])
                continue
            if k == 'unwind':
                if r['status'] == 'FAILURE':
                    unw.append(r['property'])
                continue
            n += 1
            if r['status'] == 'FAILURE':
                loc = r.get('sourceLocation', {})
                fails.append({'id': r['property'], 'desc': r['description'],
                              'at': '%s:%s %s' % (os.path.basename(loc.get('file', '?')), loc.get('line', '?'),
                                                  loc.get('function', ''))})
        self.r['obligations'] = max(self.r['obligations'], n)
        self.r['discharged'] = n - len(fails)
        if fails:
            self.r['failed'] = fails
            self.log(mode, 'FAILED', [(f['id'], f['desc'], f['at']) for f in fails][:6])
            return 'failed'
        if unw:
            self.r['notes'].append('%s: loop bound exceeded in %s' % (mode, ', '.join(unw[:4])))
            self.log('unwind', unw)
            return 'inapplicable'
        if vac:
            self.r['failed'] = [{'id': 'reach', 'desc': v + ' is unreachable', 'at': ''} for v in vac]
            self.log('VACUOUS', vac)
            return 'vacuous'
        if n == 0:
            return 'vacuous'
        if bad:
            return 'inapplicable'
        return 'proved' if mode == 'proof' else 'bounded-ok'

    # ---- bounded stand-in / counterexample search ----------------------
    def bounded(self):
        bd = self.i.get('bounded')
        if not bd:
            return 'none'
        g = os.path.join(self.dir, 'b.goto')
        k = bd.get('K_thorough', bd.get('K', 2)) if self.tier == 'thorough' else bd.get('K', 2)
        root = self.src.plain
        if self.i.get('prune'):
            try:
                root = self.src.annotated([], self.i['prune'])
            except annotate.Mismatch:
                pass
        if not self.goto_cc(root, 'VP_BOUNDED', g, ['-DVP_K=%d' % k, '-DVP_COVER'] + ['-D' + d for d in bd.get('defs', [])]):
            return 'inapplicable'
        if bd.get('replace', self.i.get('replace')):
            rc, o, e, t = sh(['goto-instrument'] + sum([['--replace-calls', x] for x in bd.get('replace', self.i.get('replace'))], []) + [g, g + '.r'], 120)
            if rc != 0:
                self.r['notes'].append('goto-instrument --replace-calls: ' + (o + e).strip()[-300:])
                return 'inapplicable'
            g = g + '.r'
        unw = bd.get('unwind_thorough', bd.get('unwind', 8)) if self.tier == 'thorough' else bd.get('unwind', 8)
        args = self.checks() + bd.get('args', []) + ['--unwind', str(unw)]
        args += ['--unwinding-assertions'] if bd.get('complete') else ['--no-unwinding-assertions']
        st, pr, t = self.cbmc(g, args, self.budget(bd.get('timeout', 240)))
        if st == 'timeout':
            self.r['notes'].append('bounded run timed out after %.0f s' % t)
            return 'inapplicable'
        if st == 'error':
            self.r['notes'].append('cbmc: %s' % pr)
            return 'inapplicable'
        saved = self.r['failed']
        self.r['bound'] = 'K=%d unwind=%s' % (k, unw)
        verdict = self.judge(pr, 'bounded')
        if verdict != 'failed':
            if verdict != 'vacuous':
                self.r['failed'] = saved
            return verdict
        # a counterexample exists: get its choices and replay them natively
        fails = self.r['failed']
        self.r['native'] = None
        fails.sort(key=lambda f: 0 if f['desc'].startswith('OBL') else 1)
        for f in fails[:3]:
            vals = self.trace_values(g, args, f['id'])
            if vals is None:
                continue
            nat = self.native(vals, k, bd)
            self.r['values'], self.r['native'], self.r['cex'] = vals, nat, f
            if nat and nat['reproduced']:
                break
        return 'failed'

    def trace_values(self, g, args, prop):
        cmd = ['cbmc', g, '--json-ui', '--drop-unused-functions', '--trace', '--property', prop] + args
        rc, o, e, t = sh(cmd, self.budget(200))
        try:
            js = json.loads(o)
        except ValueError:
            return None
        for el in js:
            for r in el.get('result', []):
                if r.get('status') == 'FAILURE' and 'trace' in r:
                    vals = []
                    for s in r['trace']:
                        if s.get('stepType') == 'assignment' and s.get('lhs') == 'vp_nd' and not s.get('hidden'):
                            fn = s.get('sourceLocation', {}).get('function', '')
                            if not fn.startswith('vp_'):
                                continue
                            v = s.get('value', {})
                            if 'data' not in v:
                                continue
                            if s.get('assignmentType') != 'variable':
                                continue
                            b = v.get('binary')
                            if b is not None:
                                x = int(b, 2)
                                if v.get('type', '').startswith('unsigned') is False and b[0] == '1' and len(b) > 1:
                                    x -= 1 << len(b)
                                if x >= 1 << 63:
                                    x -= 1 << 64
                            else:
                                x = int(re.sub(r'[uUlL]+$', '', v['data']))
                            vals.append(x)
                    return vals
        return None

    def native(self, vals, k, bd):
        vf = os.path.join(self.dir, 'values')
        with open(vf, 'w') as f:
            f.write('\n'.join(map(str, vals)) + '\n')
        exe = self.native_build(k, bd)
        if not exe:
            return {'reproduced': False, 'why': 'native harness does not compile'}
        env = dict(os.environ, VP_VALUES=vf, ASAN_OPTIONS='detect_leaks=0:halt_on_error=1')
        rc, o, e, t = sh([exe], 20, env=env, cwd=self.dir, mem=None)
        out = (o + e)[-3000:]
        rep = rc == 42 or ('AddressSanitizer' in e and '(pc 0x000000000000' not in e) or (rc < 0 and rc != -999) or 'VP-FAIL' in o
        if rc == -999 and bd.get('hang_is_failure'):
            rep = True
        return {'reproduced': rep, 'rc': rc, 'output': out}

    def native_build(self, k, bd):
        exe = os.path.join(self.dir, 'native')
        if os.path.exists(exe):
            return exe
        root = self.src.plain
        rep = self.i.get('replace') or []
        rdefs = []
        if rep:
            # calls that the unit answers with a contract: the body is dropped and the name mapped to the unit's stand-in
            pairs = [x.split(':') for x in rep]
            root = self.src.annotated([], {}, (), [a for a, b in pairs] + [a[4:] for a, b in pairs if a.startswith('frt_')])
            rdefs = ['-D%s=%s' % (a, b) for a, b in pairs]
        srcs = [self.i['path']] + [os.path.join(root, s) for s in self.i.get('link', [])]
        cmd = ['gcc', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=alignment,shift,signed-integer-overflow,float-cast-overflow,null,float-divide-by-zero,pointer-overflow', '-fno-sanitize-recover=bounds,object-size'] + \
            cflags(self.i, root, 'VP_NATIVE') + ['-DVP_BOUNDED', '-DVP_K=%d' % k] + rdefs + ['-D' + d for d in bd.get('defs', [])] + \
            srcs + [os.path.join(HERE, 'native.c'), '-o', exe, '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-lm', '-lpthread'] + \
            self.i.get('native_link', [])
        rc, o, e, t = sh(cmd, 120, mem=None)
        if rc != 0:
            self.log('native compile failed', (o + e)[-1200:])
            self.r['notes'].append('native harness does not compile: ' + (o + e)[-300:])
            return None
        return exe

    def search(self, secs):
        """look for a failing input by running the contract on the real code"""
        bd = self.i.get('bounded') or {}
        if self.i.get('nosearch'):
            return 'none'
        exe = self.native_build(bd.get('K', 2), bd)
        if not exe:
            return 'none'
        t0 = time.time()
        seed = int(os.environ.get('VERIF_SEED', '1')) * 1000
        runs = cuts = 0
        iters = 200
        while time.time() - t0 < secs:
            seed += 1
            env = dict(os.environ, VP_SEARCH=str(seed), VP_ITERS=str(iters), ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:allocator_may_return_null=0', UBSAN_OPTIONS='halt_on_error=0')
            t1 = time.time()
            rc, o, e, t = sh([exe], 60, env=env, cwd=self.dir, mem=None)
            m = re.search(r'VP-DONE (\d+) runs, (\d+)', o)
            if m:
                runs += int(m.group(1)); cuts += int(m.group(2))
                if t < 0.5:
                    iters = min(iters * 2, 100000)
                elif t > 3:
                    iters = max(1, iters // 2)
                continue
            if rc == -999:
                break
            if '(pc 0x000000000000' in e:   # a function outside the unit was called: the harness cannot run natively
                self.r['notes'].append('native search: the harness needs a function outside the unit')
                return 'none'
            mv = re.search(r'^VP-VALUES(.*)$', o, re.M)
            vals = [int(x) for x in mv.group(1).split()] if mv else None
            mf = re.search(r'VP-FAIL (.*)', o)
            ma = re.search(r'ERROR: (AddressSanitizer: [^\n]*)', e)
            desc = mf.group(1) if mf else (ma.group(1) if ma else 'the real code crashed (exit %d)' % rc)
            self.r['values'] = vals
            self.r['native'] = {'reproduced': True, 'rc': rc, 'how': 'native search', 'output': (o[:1500] + e)[-3000:]}
            f = {'id': 'native', 'desc': desc if desc.startswith('OBL') else 'OBL ' + desc, 'at': ''}
            self.r['failed'] = [f] + [x for x in self.r['failed'] if x['desc'] != f['desc']]
            self.log('native search FAILED', desc)
            return 'failed'
        self.r['native_runs'] = [runs, cuts]
        self.log('native search: %d runs, %d cut' % (runs, cuts))
        return 'ok' if runs > cuts else 'none'

    def run(self):
        t0 = time.time()
        try:
            self.run_i()
        except Exception as ex:  # machinery failure is never a verdict
            import traceback
            self.r['status'] = 'undecided'
            self.r['notes'].append('internal error: %r' % ex)
            if VERBOSE:
                traceback.print_exc()
        self.r['wall_s'] = round(time.time() - t0, 2)
        self.log(self.r['status'], '%.1fs' % self.r['wall_s'], self.r['obligations'], self.r['notes'] or '')
        return self.r

    def run_i(self):
        if Unit.stop:
            self.r['status'] = 'skipped'
            self.r['notes'].append('not run: a violation was already found')
            return
        self.run_j()
        if self.r['status'] == 'violated' and self.r.get('native') and self.r['native'].get('reproduced') and self.tier == 'quick' and not known_findings(self.i['property']):
            Unit.stop = True

    stop = False

    def run_j(self):
        lvl = self.i.get('level', 'proof')
        r = self.r
        r['level'] = lvl
        p = self.proof() if lvl == 'proof' else 'inapplicable'
        thorough = self.tier == 'thorough'
        if p == 'proved':
            r['status'] = 'proved'
            r['failed'] = []
            if self.i.get('limit'):  # the unit itself limits a size: reported as bounded
                r['status'] = 'bounded'
                r['bound'] = self.i['limit']
            if thorough:  # cross-check of the specification itself on the unannotated tree
                obl, dis = r['obligations'], r['discharged']
                x = self.search(20)
                if x != 'failed' and self.i.get('bounded') and not self.i['bounded'].get('noxcheck'):
                    x = self.bounded()
                r['obligations'], r['discharged'] = obl, dis
                r['xcheck'] = x
                if x == 'failed':
                    r['status'] = 'violated'
            return
        pfail = list(r['failed'])
        if p in ('failed', 'vacuous'):
            r['status'] = 'violated'
            if self.search(10) == 'failed' or self.bounded() == 'failed':
                return
            r['failed'] = pfail
            r['native'] = None
            return
        # no deductive verdict: bounded stand-in, labelled as such
        if lvl != 'proof':
            b = self.bounded()
            s = self.search(20 if thorough else 2) if b != 'failed' else 'none'
        else:
            s = self.search(10)
            b = self.bounded() if s != 'failed' else 'none'
        if 'failed' in (s, b) or (b == 'vacuous' and s != 'ok'):
            r['status'] = 'violated'
        elif b == 'vacuous':   # the contract runs to its end natively: only the loop bound is too small
            r['status'], r['failed'] = 'sampled', []
            r['notes'].append('bounded run never reaches its end within the loop bound; only native runs of the contract (%d)' % r['native_runs'][0])
        elif b == 'bounded-ok':
            r['status'] = 'bounded'
            if lvl == 'proof':
                r['notes'].append('decided by the bounded stand-in only (%s)' % r.get('bound'))
        elif s == 'ok':
            r['status'] = 'sampled'
            r['notes'].append('only native runs of the contract (%d)' % r['native_runs'][0])
        else:
            r['status'] = 'undecided'


STD_NOBODY = set(['printf', 'fprintf', 'sprintf', 'fflush', 'sscanf', '__errno_location', 'strerror'])


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    VERBOSE = a.v
    t0 = time.time()
    total = 840 if a.tier == 'quick' else 3600
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % a.property)
    os.environ['TMPDIR'] = tmp
    src = Src(tmp)

    def budget(t):
        if os.environ.get('VP_TIMEOUT'):
            t = min(t, float(os.environ['VP_TIMEOUT']))
        return max(1, min(t if a.tier == 'quick' else t * 6, total - (time.time() - t0)))

    insts = []
    for u in units_of(a.property):
        for i in instances(u, a.tier):
            if a.unit and not i['iname'].startswith(a.unit):
                continue
            insts.append(i)
    insts.sort(key=lambda i: -i.get('cost', 1))
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        rs = list(ex.map(lambda i: Unit(i, src, tmp, budget, a.tier).run(), insts))
    rc = report(a, rs, time.time() - t0)
    if a.keep:
        print('kept', tmp)
    else:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def known_findings(prop):
    p = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('known', []) if f['property'] == prop]


def report(a, rs, wall):
    prop = a.property
    known = known_findings(prop)
    viol = []
    for r in rs:
        if r['status'] != 'violated':
            continue
        rest = []
        for f in r['failed']:
            k = [x for x in known if x['unit'] == r['unit'] and re.search(x['obligation'], f['desc'])]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
            else:
                rest.append(f)
        if rest:
            viol.append(r)
        else:
            r['status'] = 'known-finding'
    und = [r for r in rs if r['status'] == 'undecided']
    dec = [r for r in rs if r['status'] in ('proved', 'bounded', 'known-finding', 'sampled')]
    for r in rs:
        print('%-12s %-34s %4d obligations %6.1fs %s' % (r['status'], r['unit'], r['obligations'], r['wall_s'],
                                                         '; '.join(r['notes'])[:300]))
    rdir = os.path.join(ROOT, 'replays')
    for r in viol:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.%s.json' % (prop, r['unit']))
        rep = {'property': prop, 'unit': r['unit'], 'unit_title': r['title'], 'failed_obligations': r['failed'],
               'counterexample_choices': r.get('values'), 'native_replay': r.get('native'), 'notes': r['notes'],
               'how_to_rerun': 'python3 vp/check.py %s --unit %s -v' % (prop, r['unit'])}
        json.dump(rep, open(path, 'w'), indent=1)
        ok = r.get('native') and r['native'].get('reproduced')
        for f in r['failed'][:5]:
            print('  failed obligation: %s [%s] at %s' % (f['desc'], f['id'], f['at']))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if ok else ' no-failing-input-found'))
    evidence(a, rs, viol, wall)
    if viol:
        return 1
    if not dec:
        print('NO VERDICT property=%s: no unit could be decided' % prop)
        return 2
    for r in und:
        print('INCOMPLETE property=%s unit=%s: %s' % (prop, r['unit'], '; '.join(r['notes'])[:200]))
    print('OK property=%s (%d units: %d proved, %d bounded, %d undecided) %.1fs' % (
        prop, len(rs), sum(r['status'] == 'proved' for r in rs), sum(r['status'] == 'bounded' for r in rs), len(und), wall))
    return 0


def evidence(a, rs, viol, wall):
    proved = [r for r in rs if r['status'] == 'proved']
    bnd = [r for r in rs if r['status'] in ('bounded', 'known-finding', 'sampled')]
    lvl = 'proof' if proved else 'other'
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json'))) if os.path.exists(os.path.join(ROOT, 'MANIFEST.json')) else {'checks': []}
    mlev = [c['level'] for c in man['checks'] if c['property'] == a.property]
    assume = ['allocation succeeds (malloc/calloc/realloc never return NULL)',
              'exceptions: a raise ends the path; longjmp unwinding itself is not modelled',
              'machine arithmetic is modelled exactly (two\'s complement, IEEE floats), nothing is treated as mathematical',
              'CBMC 6.11 / MiniSat and its C library models (memcpy, memset, strlen, ...) are trusted']
    for r in rs:
        for s in r['assume']:
            s2 = '%s: %s' % (r['unit'], s)
            if s2 not in assume:
                assume.append(s2)
        for n in r['notes']:
            assume.append('%s: %s' % (r['unit'], n))
    ev = {'property': a.property, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': mlev[0] if mlev else lvl,
          'coverage': {
              'explanation': '%d units proved for all inputs, %d decided by a bounded stand-in (never counted as proved)' % (len(proved), len(bnd)),
              'obligations': sum(r['obligations'] for r in proved),
              'discharged': sum(r['discharged'] for r in proved),
              'checker_cmd': 'goto-cc | goto-instrument --dfcc harness --apply-loop-contracts | cbmc --unwinding-assertions (MiniSat)',
              'trusted_base': ['cbmc 6.11.0', 'goto-cc C front end', 'vp/annotate.py (inserts loop contracts only)', 'unit contracts in /verif/units'],
              'bound': '; '.join(sorted(set('%s: %s' % (r['unit'], r.get('bound')) for r in bnd))) or 'none',
              'bounded_obligations': sum(r['obligations'] for r in bnd),
              'functions_under_contract': sorted(set(f for r in rs for f in r['functions'])),
              'solver_s': round(sum(r['solver_s'] for r in rs), 2),
              'units': [{k: r.get(k) for k in ('unit', 'title', 'status', 'obligations', 'discharged', 'solver_s', 'wall_s', 'bound', 'notes')} for r in rs]},
          'assumptions': assume, 'wall_s': round(wall, 2),
          'violations': len(viol),
          'violated_units': [{'unit': r['unit'], 'failed': r['failed'], 'reproduced': bool(r.get('native') and r['native'].get('reproduced'))} for r in viol]}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', a.property + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
