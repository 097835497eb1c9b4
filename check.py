#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough].

Compiles the property's harnesses together with /repo's current headers to LLVM IR, lets
build/symex execute them symbolically and decide their assertions, validates the engine on
this run by executing sampled paths natively, replays every counterexample against the real
code, and writes evidence/PROPERTY.json.
exit 0: held on everything explored   1: VIOLATION printed   2: no answer
"""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs as J

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
SYMEX = os.path.join(V, 'build', 'symex')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 4
LIMIT = {'quick': float(os.environ.get('VF_LIMIT', 780)), 'thorough': float(os.environ.get('VF_LIMIT', 7200))}

BASE = ['-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-exceptions',
        '-I' + REPO + '/include', '-DBOOST_ENABLE_ASSERT_HANDLER']
UBSAN = ['-fsanitize=undefined', '-fsanitize-trap=undefined', '-fno-sanitize=vptr,function']
TRIPLE = {'be64': 's390x-linux-gnu', 'be32': 'powerpc-linux-gnu', 'le32': 'i386-linux-gnu'}
CROSS = ['-Wno-everything', '-D__regparm__=__aligned__', '-isystem', V + '/harness/xinc',
         '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13',
         '-isystem', '/usr/include/x86_64-linux-gnu']

def sh(cmd, timeout, mem=None, **kw):
    def lim():
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setsid()
    with PLOCK:
        if STOPPED: raise RuntimeError('stopped')
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', preexec_fn=lim, **kw)
        PROCS.add(p)
    try:
        o, e = p.communicate(timeout=max(timeout, 1)); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate(); return -9, o, e
    finally: PROCS.discard(p)

def known_findings():
    k = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'finding: property=\S+ id=(\S+) (.*)', l)
        if m: k[m.group(1)] = m.group(1) + ': ' + m.group(2)
    return k
KNOWN = known_findings()
PROCS, PLOCK, STOPPED = set(), threading.Lock(), False
class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.dir = os.path.join(V, 'build', 'run-%s-%s-%d' % (prop, tier, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
        self.replays = os.path.join(V, 'build', 'replay', prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.lock = threading.Lock(); self.units = {}; self.pool = cf.ThreadPoolExecutor(NCPU)
        self.res = []; self.errors = []; self.undecided = []; self.violations = []; self.known = []; self.validated = 0; self.samples = []; self.compile_s = 0.0; self.stop = threading.Event()
    def left(self): return LIMIT[self.tier] - (time.time() - self.t0)

    # ---- compilation of the real code with a harness
    def flags(self, j, defs):
        f = ['-std=c++%d' % j.std] + BASE + list(defs)
        if j.ub: f += UBSAN
        if j.target != 'rt': f = ['--target=' + TRIPLE[j.target]] + CROSS + f
        return f
    def compile(self, j, i):
        src, defs = j.units[i]; out = os.path.join(self.dir, '%s.%d.ll' % (j.name, i))
        rc, o, e = sh(['clang++'] + self.flags(j, defs) + [os.path.join(V, 'harness', src), '-S', '-emit-llvm', '-o', out], self.left())
        if rc: raise RuntimeError('harness %s does not compile: %s' % (src, e[:1500]))
        return out

    # ---- symbolic execution of one shard
    def shard(self, j, lls, i):
        pfx = os.path.join(self.dir, '%s-%d_' % (j.name, i))
        mt = min(j.maxtime, self.left() - 60)
        if mt < 5: return dict(status='inconclusive', why='no time left', wall_s=0)
        cmd = [SYMEX] + lls + ['--shard', '%d/%d' % (i, j.shards), '--prefix', pfx, '--samples', str(j.samples if i % j.sample_every == 0 else 0),
                               '--seed', str(SEED), '--max-time', '%d' % mt, '--src', REPO + '/', '--timeout-ms', str(j.timeout_ms), '--max-found', '3']
        rc, o, e = sh(cmd, mt + 40, mem=10 << 30)
        try: d = json.loads(o)
        except Exception: d = dict(status='inconclusive', why='engine ended with %s %s' % (rc, e[-300:]), wall_s=mt)
        return d

    # ---- native builds
    def native(self, j, san):
        key = (j.name, san)
        exe = os.path.join(self.dir, j.name + '.' + san)
        with self.lock:
            lk = self.units.setdefault(key, threading.Lock())
        with lk:
            if os.path.exists(exe): return exe
            objs = []
            fl = {'asan': ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,function'], 'msan': ['-O1', '-g', '-fsanitize=memory'], 'plain': ['-O2']}[san]
            for n, (src, defs) in enumerate(j.units + [('vf_native.cpp', [])]):
                ob = exe + '.%d.o' % n
                rc, o, e = sh(['clang++', '-std=c++%d' % j.std, '-DVF_NATIVE', '-fno-exceptions', '-I' + REPO + '/include', '-DBOOST_ENABLE_ASSERT_HANDLER'] + fl + list(defs) + ['-c', os.path.join(V, 'harness', src), '-o', ob], 300)
                if rc: raise RuntimeError('native build: ' + e[:800])
                objs.append(ob)
            rc, o, e = sh(['clang++'] + fl + objs + ['-o', exe], 300)
            if rc: raise RuntimeError('native link: ' + e[:800])
            return exe
    def run_native(self, exe, inp, limit=60):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
        return sh([exe, inp], limit, env=env)
    def run_concrete(self, j, lls, inp):
        rc, o, e = sh([SYMEX] + lls + ['--concrete', inp, '--src', REPO + '/'], 120)
        try: return json.loads(o)
        except Exception: return dict(status='inconclusive', why='engine ended with %s' % rc, out=[], found=[])

    def cosim(self, j, lls, inp):
        """One sampled path: the engine's concrete run and, for the native target, the compiled code agree."""
        d = self.run_concrete(j, lls, inp)
        if d['status'] != 'ok': return 'concrete run of a clean path: %s %s' % (d['status'], d.get('why') or d.get('found'))
        if j.target == 'rt':
            rc, o, e = self.run_native(self.native(j, 'asan'), inp)
            out = [l[4:] for l in o.splitlines() if l.startswith('OUT ')]
            if rc != 0 or 'VF-END' not in o: return 'native run of a clean path exits %s: %s %s' % (rc, o[-300:], e[-500:])
            if out != d['out']: return 'native and symbolic outputs differ: %s / %s' % (out[:3], d['out'][:3])
        with self.lock:
            self.validated += 1
            if len(self.samples) < 6: self.samples.append(dict(harness=j.name, inputs=open(inp).read().split('\n')[:12], observed=[x[:128] for x in d['out'][:4]], native=j.target == 'rt'))
        return None

    # ---- counterexamples
    def leak_confirm(self, j, lls, inp, label):
        """A leak claim is a relation between runs: the same object byte minus input byte in every run."""
        import random
        rnd = random.Random(SEED); base = open(inp).read().split('\n'); rel = None
        for k in range(6):
            t = []
            for l in base:
                w = l.split()
                if k and len(w) == 3 and w[0] == 'sym' and w[2] != '-': w[2] = ''.join('%02x' % rnd.randrange(256) for _ in range(len(w[2]) // 2))
                t.append(' '.join(w))
            f = inp + '.l%d' % k; open(f, 'w').write('\n'.join(t))
            rc, o, e = self.run_native(self.native(j, 'plain'), f)
            m = re.search(r'LEAK ' + re.escape(label) + r'\n  obj (\S*)\n  in (\S*)', o)
            if not m: return False
            ob, ib = bytes.fromhex(m.group(1)), bytes.fromhex(m.group(2))
            s = {(q, p, op, (ob[q] ^ ib[p]) if op == 'x' else (ob[q] - ib[p]) & 255) for q in range(len(ob)) for p in range(len(ib)) for op in 'xs'}
            rel = s if rel is None else rel & s
        return bool(rel)
    def confirm(self, j, lls, f):
        inp = f['file']; how = ''
        if f['kind'] == 'leak':
            if j.target == 'rt' and self.leak_confirm(j, lls, inp, f['label']): return 'the same object byte follows the same input byte in six native runs'
            return ''
        d = self.run_concrete(j, lls, inp)
        if d['status'] == 'violation': how = 'the real code, interpreted on these inputs: %s' % d['found'][0]['label']
        if j.target == 'rt':
            try:
                rc, o, e = self.run_native(self.native(j, j.san), inp, 60 if j.san == 'asan' else 240)
                if rc == 10 or (rc < 0 and rc != -9) or 'AddressSanitizer' in e or 'runtime error' in e:
                    return 'compiled natively with ASan and UBSan: exit %s %s' % (rc, (o + e).strip()[:1500])
                if f['kind'] == 'uninit':
                    rc, o, e = self.run_native(self.native(j, 'msan'), inp)
                    if 'MemorySanitizer' in e: return 'compiled natively with MSan: ' + e[:800]
            except RuntimeError as x: how += ' (native build failed: %s)' % str(x)[:200]
            if f['kind'] not in ('ub', 'memory', 'uninit'): return ''
        return how
    def save_replay(self, j, f, how, n):
        d = os.path.join(self.replays, 'cex%d' % n); os.makedirs(d, exist_ok=True)
        shutil.copy(f['file'], os.path.join(d, 'inputs.txt'))
        comp = ['set -e', 'T=$(mktemp -d)', 'trap \'rm -r "$T"\' EXIT', 'cd ' + V]
        if j.target == 'rt':
            o = []
            for n2, (src, defs) in enumerate(j.units + [('vf_native.cpp', [])]):
                comp.append('clang++ -DVF_NATIVE -std=c++%d -fno-exceptions -O1 -g -fsanitize=address,undefined -I%s/include -DBOOST_ENABLE_ASSERT_HANDLER %s -c harness/%s -o "$T/%d.o"' % (j.std, REPO, ' '.join("'%s'" % x for x in defs), src, n2)); o.append('"$T/%d.o"' % n2)
            comp += ['clang++ -fsanitize=address,undefined %s -o "$T/replay"' % ' '.join(o), 'ASAN_OPTIONS=detect_leaks=0 "$T/replay" "%s/inputs.txt"' % d]
        else:
            o = []
            for n2, (src, defs) in enumerate(j.units):
                comp.append('clang++ %s harness/%s -S -emit-llvm -o "$T/%d.ll"' % (' '.join("'%s'" % x for x in self.flags(j, defs)), src, n2)); o.append('"$T/%d.ll"' % n2)
            comp.append('build/symex %s --concrete "%s/inputs.txt"' % (' '.join(o), d))
        open(os.path.join(d, 'replay.sh'), 'w').write('#!/bin/bash\n' + '\n'.join(comp) + '\n'); os.chmod(os.path.join(d, 'replay.sh'), 0o755)
        open(os.path.join(d, 'report.txt'), 'w').write('harness %s\nkind %s\nassertion %s\nwhere %s\nconfirmed by %s\n' % (j.name, f['kind'], f['label'], f['where'], how))
        return d

    # ---- one job
    def job(self, j):
        t = time.time()
        fs = [self.pool.submit(self.compile, j, i) for i in range(len(j.units))]
        lls = [f.result() for f in fs]
        self.compile_s += time.time() - t
        sf = [self.pool.submit(self.shard, j, lls, i) for i in range(j.shards)]
        rs = [f.result() for f in sf]
        covers = set(); cos = []
        for i, r in enumerate(rs):
            covers |= set(r.get('covers', []))
            if r['status'] in ('inconclusive',): self.undecided.append('%s shard %d/%d: %s' % (j.name, i, j.shards, r.get('why')))
            for s in r.get('samples', []): cos.append(self.pool.submit(self.cosim, j, lls, s))
        for c in cos:
            try: x = c.result()
            except RuntimeError as ex: x = str(ex)
            if x and not any(r.get('found') for r in rs): self.errors.append('%s: %s' % (j.name, x))
        n = 0
        for r in rs:
            for f in r.get('found', []):
                if n >= 4 or self.violations and n >= 1: break
                n += 1; how = self.confirm(j, lls, f)
                if not how: self.errors.append('%s: counterexample not confirmed by the real code: %s %s %s' % (j.name, f['kind'], f['label'], f['where'])); continue
                if j.known in KNOWN: self.known.append((KNOWN[j.known], f['label'])); continue
                with self.lock:
                    if self.violations: return
                    d = self.save_replay(j, f, how, len(self.violations)); self.violations.append((j.name, f['kind'], f['label'], f['where'], how, d))
                self.res.append((j, rs, covers)); self.stop.set(); return
        if j.known and not n and all(r['status'] == 'ok' for r in rs): self.errors_known = True
        if all(r['status'] == 'ok' for r in rs) and not j.known:
            miss = [c for c in j.covers if c not in covers]
            if miss: self.errors.append('%s: never reached: %s' % (j.name, ', '.join(miss)))
        for c in covers:
            if c.isupper(): self.undecided.append('%s: %s' % (j.name, c))
        with self.lock: self.res.append((j, rs, covers))

    def go(self):
        js = J.jobs(self.prop, self.tier)
        js.sort(key=lambda j: -j.weight)
        starters = cf.ThreadPoolExecutor(len(js))
        fs = [(j, starters.submit(self.job, j)) for j in js]
        # the first confirmed violation ends the run
        pend = {f: j for j, f in fs}
        while pend and not self.stop.is_set():
            done, _ = cf.wait(pend, timeout=0.2, return_when=cf.FIRST_COMPLETED)
            for f in done:
                j = pend.pop(f)
                try: f.result()
                except RuntimeError as x: self.errors.append('%s: %s' % (j.name, x))
        if self.stop.is_set():
            with PLOCK:
                global STOPPED; STOPPED = True
                for p in list(PROCS):
                    try: os.killpg(p.pid, 9)
                    except OSError: pass
        self.finish(js)

    def finish(self, js):
        K = ('paths', 'instrs', 'forks', 'queries', 'sat', 'unsat', 'unknown', 'feasibility', 'lemmas', 'lemmas_proved', 'asserts', 'by_rewriting', 'by_sweeping', 'by_query', 'solver_s')
        tot = {k: 0 for k in K}; funcs = {}; labels = {}; per = []; maxq = 0
        for j, rs, covers in list(self.res):
            pj = dict(harness=j.name, target=j.target, ub_instrumented=j.ub, bounds=j.bounds, shards=j.shards, covers=sorted(covers), status=sorted(set(r['status'] for r in rs)))
            for r in rs:
                for k in K: tot[k] += r.get(k, 0)
                maxq = max(maxq, r.get('max_query_s', 0))
                for a, b in r.get('labels', {}).items(): labels[a] = labels.get(a, 0) + b
                for a, b in r.get('functions', {}).items():
                    if a.startswith('include/'): funcs.setdefault(a, set()).update(b)
            for k in ('paths', 'asserts', 'queries'): pj[k] = sum(r.get(k, 0) for r in rs)
            pj['cpu_s'] = round(sum(r.get('wall_s', 0) for r in rs), 2); pj['max_shard_s'] = round(max([r.get('wall_s', 0) for r in rs] or [0]), 2)
            per.append(pj)
        wall = time.time() - self.t0
        cov = dict(states=tot['paths'], transitions=tot['instrs'], traces_validated_against_impl=self.validated, samples=self.samples or ['none'],
                   meaning='states: symbolic paths completed; transitions: IR instructions executed symbolically; traces: sampled paths executed by the engine on concrete inputs and, for the native target, by the compiled code under ASan/UBSan with equal outputs',
                   solver=dict(queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], path_feasibility=tot['feasibility'], lemmas_tried=tot['lemmas'], lemmas_proved=tot['lemmas_proved'], seconds=round(tot['solver_s'], 2), longest_query_s=round(maxq, 3)),
                   assertions=dict(total=tot['asserts'], decided_by_term_rewriting=tot['by_rewriting'], decided_by_sat_sweeping=tot['by_sweeping'], decided_by_direct_query=tot['by_query'], by_label=labels),
                   functions_encoded={k: sorted(v)[:400] for k, v in sorted(funcs.items())}, functions_encoded_count=sum(len(v) for v in funcs.values()),
                   jobs=per, undecided=self.undecided, errors=self.errors, known_findings=sorted(set(k for k, _ in self.known)), outside_the_bounds=J.outside(self.prop))
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level='model_checking', coverage=cov, assumptions=J.ASSUME + J.assume(self.prop), wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for k in sorted(set(k for k, _ in self.known)): print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        print('%s %s: %d jobs, %d paths, %d assertions, %d queries, %.1f s solver, %d traces validated, %.1f s' % (self.prop, self.tier, len(js), tot['paths'], tot['asserts'], tot['queries'], tot['solver_s'], self.validated, wall))
        if os.environ.get('VF_VERBOSE'):
            for p in sorted(per, key=lambda p: -p['cpu_s']): print('   %-40s cpu %7.1f  shard %6.1f  %s' % (p['harness'], p['cpu_s'], p['max_shard_s'], p['status']))
        for v in self.violations:
            print('  %s: %s: %s at %s' % v[:4]); print('    ' + v[4].replace('\n', '\n    ')[:700])
        for u in self.undecided: print('  NOT DECIDED ' + str(u)[:300])
        for e in self.errors: print('  ERROR ' + e[:1500])
        if not os.environ.get('VF_KEEP'): shutil.rmtree(self.dir, ignore_errors=True)
        sys.stdout.flush()
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][5])); code = 1
        elif self.errors: code = 2
        else:
            # paths that were not explored are listed above and in the evidence; without any decided job there is no answer
            bad = sum(1 for j, rs, c in self.res if any(r['status'] != 'ok' for r in rs) and not j.known)
            code = 2 if not self.res or bad * 2 > len(self.res) else 0
        sys.stdout.flush(); os._exit(code)

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if not os.path.exists(SYMEX):
        os.makedirs(os.path.join(V, 'build'), exist_ok=True)
        rc, o, e = sh([os.path.join(V, 'engine', 'build.sh'), SYMEX], 600)
        if rc: print('engine build failed: ' + e[-2000:]); sys.exit(2)
    Run(prop, tier).go()
main()
