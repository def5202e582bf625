#!/usr/bin/env python3
"""run.py <property> <quick|thorough> | run.py --prebuild

Bounded model checking of the compiled library (Kani front end, CBMC, CaDiCaL).  The harnesses of src/h.rs are
compiled together with /repo's working tree; every harness (and every choice of its concrete parameters, which are
linked in as constants) is one CBMC run over all values of its nondeterministic inputs.

  ..._ok_...  every check in every reachable function holds, every loop is fully unwound, the end is reachable
  ..._no_...  the end is unreachable: every input makes the code panic

A failed check counts only after the solver's counterexample has been replayed on the natively compiled code.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('VERIF_ROOT', os.path.dirname(HERE))
KLIB = sorted(glob.glob('/root/.kani/kani-*/library/kani/kani_lib.c'))
FLAGS = ['--no-malloc-may-fail', '--no-undefined-shift-check', '--no-signed-overflow-check', '--nan-check',
         '--no-self-loops-to-assumptions', '--no-pointer-primitive-check', '--object-bits', '16', '--sat-solver', 'cadical']

# concrete parameters per harness: (quick, thorough)
LENS = [(n,) for n in range(1, 33)]
Q = [(1,), (2,), (9,), (31,), (32,)]
BYTES = [(l, k) for k in (0, 1, 2, 8, 9, 31, 32, 33) for l in (1, 2, 8, 9, 31, 32) if l <= max(k, 1)]
PARAMS = {
    'c15_ok_from_biguint': (Q, LENS),
    'c15_ok_from_bigint': (Q, LENS),
    'c15_ok_bytes_roundtrip': (Q, LENS),
    'c15_ok_into_other': ([(1,), (9,), (31,), (32,)], LENS),
    'c15_ok_from_other': ([(1,), (9,), (31,), (32,)], LENS),
    'c15_ok_other_narrow': ([(1,), (2,)],) * 2,
    'c15_ok_other_wide': ([(1,), (2,), (3,)],) * 2,
    'c15_ok_from_bytes': ([(1, 0), (1, 1), (1, 2), (2, 2), (8, 8), (1, 32), (31, 32), (32, 32), (32, 33)], BYTES),
    'c16_ok_text_write': ([(1,), (2,), (3,)],) * 2,
    'c16_ok_text_read': ([(1, 1), (1, 2), (1, 3), (2, 3), (1, 4), (2, 4)],) * 2,
    'c24_ok_g1_place': ([(1,), (2,), (3,)],) * 2,
    'c24_ok_g2_place': ([(1,), (2,), (3,)],) * 2,
    'c24_ok_g1_bytes': ([(n,) for n in range(6)],) * 2,
    'c24_ok_g2_bytes': ([(n,) for n in range(10)],) * 2,
    'c24_ok_proof': ([(n,) for n in range(10)],) * 2,
    'c25_ok_from_seed': ([(1, 0), (2, 0), (2, 1), (1, 3), (2, 3)], [(l, k) for l in (1, 2) for k in range(5)]),
    'c25_ok_salted': ([(0,), (1,), (3,)], [(k,) for k in range(7)]),
}
# lengths that no value below the field order has after reduction (the harness end is then unreachable)
EMPTY = {('c15_ok_into_other', (33,))}
INFO = {}
exec(open(os.path.join(HERE, 'info.py')).read())
LOCK = threading.Lock()
# the guarded hooks of /repo are used when they compile; without them the harnesses that need them are left out
HOOKS = True
NEEDS_HOOK = {'c25_ok_far', 'c25_ok_far_salted'}


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    e.pop('RUSTC_WRAPPER', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    if HOOKS:
        e['RUSTFLAGS'] = '--cfg fawkes_verif'
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    return e


def codegen(filters):
    global HOOKS
    out = os.path.join(HERE, 'target/kani/x86_64-unknown-linux-gnu/debug/build/kharness')
    cmd = ['cargo', 'kani', '--lib', '-Z', 'unstable-options', '-Z', 'c-ffi', '--only-codegen', '--no-assertion-reach-checks']
    for f in filters:
        cmd += ['--harness', f]
    while True:
        shutil.rmtree(out, ignore_errors=True)
        p = subprocess.run(cmd, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        metas = glob.glob(out + '/*/out/*.kani-metadata.json')
        hs = [h for m in metas for h in json.load(open(m))['proof_harnesses']]
        hs = [h for h in hs if os.path.exists(h['goto_file'])]
        if p.returncode == 0 and hs:
            return hs
        if HOOKS:
            HOOKS = False
            continue
        print(p.stdout[-6000:])
        print('ERROR: the harness does not build against /repo')
        sys.exit(2)


def native():
    with LOCK:
        p = subprocess.run(['cargo', 'build', '--offline', '--bin', 'kreplay'], cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None
    return os.path.join(HERE, 'target/debug/kreplay')


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limits)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, ''


def values(trace):
    """the bytes of the nondeterministic values in the order in which the code drew them"""
    out, group, last = [], {}, None

    def flush():
        for k in sorted(group):
            out.extend(group[k])
        group.clear()

    def enc(v):
        if v.get('name') == 'array':
            return [b for e in v['elements'] for b in enc(e['value'])]
        if v.get('name') == 'struct':
            return [b for e in v['members'] for b in enc(e['value'])]
        b = v['binary'] if 'binary' in v else ('1' if v.get('data') in (True, 'true', 'TRUE') else '0')
        b = b.zfill((len(b) + 7) // 8 * 8)
        return list(int(b, 2).to_bytes(len(b) // 8, 'little'))

    def leaves(v, at, into):
        if v.get('name') == 'array':
            for i, e in enumerate(v['elements']):
                leaves(e['value'], at + (i,), into)
        else:
            into[at] = enc(v)

    whole = False
    for s in trace:
        if s.get('stepType') != 'assignment' or not s.get('lhs', '').startswith('goto_symex$$return_value'):
            continue
        f = s.get('sourceLocation', {}).get('function', '')
        if 'any_raw_' not in f:
            continue
        base = s['lhs'].split('$$')[-1]
        idx = tuple(int(re.sub(r'[^0-9]', '', x)) for x in re.findall(r'\[([^\]]*)\]', base))
        v = s['value']
        if not idx:
            flush()
            whole = v.get('name') == 'array'
            if whole:
                leaves(v, (), group)  # the elements are assigned one by one next
            else:
                out.extend(enc(v))
        else:
            if base.split('[')[0] != last or (idx in group and not whole):
                flush()
                whole = False
            group[idx] = enc(v)
        last = base.split('[')[0]
    flush()
    return bytes(out)


class Job:
    def __init__(self, h, params, prop, timeout):
        self.h, self.params, self.prop, self.timeout = h, params, prop, timeout
        self.name = h['pretty_name'].split('::')[-1]
        self.id = self.name + ''.join('_%d' % p for p in params)
        self.wants_panic = '_no_' in self.name
        self.unwind = h['attributes']['unwind_value'] or 16
        self.error = None
        self.violation = None
        self.checks = self.steps = self.vccs = self.clauses = 0
        self.wall = 0.0
        self.sample = None

    def cbmc(self, extra, timeout=None):
        return sh(['cbmc'] + FLAGS + ['--unwind', str(self.unwind), 'x.out'] + extra, self.dir, timeout or self.timeout)

    def trace(self, prop):
        rc, o = self.cbmc(['--trace', '--json-ui', '--property', prop], self.timeout * 2 // 5)
        try:
            for d in json.loads(o):
                for r in d.get('result', []):
                    if r.get('trace'):
                        return values(r['trace'])
        except ValueError:
            pass
        return None

    def candidates(self):
        yield bytes(8192)
        for i in range(200):
            yield hashlib.shake_128(b'%d' % i).digest(8192)

    def replay(self, data):
        exe = native()
        if not exe:
            return None, 'native build failed'
        path = os.path.join(self.dir, 'bytes')
        open(path, 'wb').write(data)
        e = env()
        for i, p in enumerate(self.params):
            e['PARAM%d' % i] = str(p)
        try:
            p = subprocess.run([exe, self.name, path], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        return p.returncode, p.stdout

    def run(self, want_sample):
        t = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-kani-')
        try:
            self.decide(want_sample)
        except Exception as ex:  # noqa
            self.error = 'driver: %r' % ex
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.wall = time.time() - t

    def decide(self, want_sample):
        with open(os.path.join(self.dir, 'param.c'), 'w') as f:
            for i in (0, 1):
                f.write('__CPROVER_size_t verif_param%d(void) { return %d; }\n' % (i, self.params[i] if i < len(self.params) else 0))
        for cmd in (['goto-cc', self.h['goto_file'], KLIB[-1], 'param.c', '-o', 'x.out'],
                    ['goto-cc', 'x.out', '--function', self.h['mangled_name'], '-o', 'x.out'],
                    ['goto-instrument', '--add-library', '--no-malloc-may-fail', 'x.out', 'x.out'],
                    ['goto-instrument', '--generate-function-body-options', 'assert-false-assume-false', '--generate-function-body', '.*', '--drop-unused-functions', 'x.out', 'x.out'],
                    ['goto-instrument', '--ensure-one-backedge-per-target', 'x.out', 'x.out']):
            rc, o = sh(cmd, self.dir, 300)
            if rc != 0:
                self.error = '%s: %s' % (cmd[0], o[-800:])
                return
        while True:
            rc, o = self.cbmc(['--slice-formula', '--verbosity', '8'])
            if rc is None or rc not in (0, 10):
                self.error = 'CBMC gave no answer (%s): %s' % ('timeout' if rc is None else rc, o[-300:])
                return
            res = re.findall(r'^\[((?:[^\n]*?\.)?[\w-]+\.\d+)\] (?:file \S+ )?(?:line (\d+) )?(.*?): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', o, re.M | re.S)
            m = re.search(r'^\*\* (\d+) of (\d+) failed', o, re.M)
            if not m or int(m.group(2)) != len(res) or int(m.group(1)) != sum(1 for r in res if r[3] == 'FAILURE'):
                self.error = 'the output of CBMC is not understood: %s, %d' % (m and m.group(0), len(res))
                return
            failed = [r for r in res if r[3] != 'SUCCESS']
            unw = [r for r in failed if '.unwind.' in r[0] or '.recursion' in r[0]]
            if unw and self.unwind < 600:
                self.unwind = min(self.unwind * 2 + 10, 600)
                continue
            break
        m = re.search(r'size of program expression: (\d+) steps', o)
        self.steps = int(m.group(1)) if m else 0
        m = re.search(r'Generated (\d+) VCC', o)
        self.vccs = int(m.group(1)) if m else 0
        m = re.findall(r'(\d+) variables, (\d+) clauses', o)
        self.clauses = int(m[-1][1]) if m else 0
        cover = [r for r in res if '.cover.' in r[0] and r[2].endswith('reached')]
        other = [r for r in failed if '.cover.' not in r[0]]
        self.checks = len(res)
        if not cover:
            self.error = 'no end marker in the encoding'
            return
        reached = [r for r in cover if r[3] == 'FAILURE']
        bad = [r for r in other if '.unwind.' in r[0] or '.recursion' in r[0] or 'harness bound' in r[2] or 'unsupported' in r[0].lower() or r[3] != 'FAILURE']
        if self.wants_panic:
            # a panic is what the property asks for; the end must be out of reach
            if reached:
                self.confirm(reached[:1], True)
            elif bad:
                self.error = 'undecided: %s' % bad[0][2]
            return
        real = [r for r in other if r not in bad]
        if real:
            self.confirm(real, False)
        elif bad:
            self.error = 'undecided: %s' % bad[0][2]
        elif not reached:
            if (self.name, self.params) not in EMPTY:
                # nothing gets to the end: either every input panics (which would have been reported) or the harness is vacuous
                self.error = 'vacuous: the end of the harness is unreachable'
        elif want_sample:
            d = self.trace(reached[0][0])
            if d is None:
                self.error = 'no witness for a reachable end'
                return
            rc, out = self.replay(d)
            if rc != 0 or 'COMPLETED' not in out:
                self.error = 'a witness does not run on the compiled code: %s' % out[-300:]
                return
            self.sample = {'harness': self.id, 'inputs_hex': d.hex()}

    def confirm(self, props, reached):
        last = ''
        for p in props[:6] + [None]:
            if p is None:
                # CBMC decided the failure, yet building the assignment is out of its reach: look for an input that shows it
                if not last.startswith('no trace'):
                    break
                p, d = props[0], None
                for c in self.candidates():
                    rc, out = self.replay(c)
                    if (rc == 0 and 'COMPLETED' in out) if reached else (rc not in (0, 3, None)):
                        d = c
                        break
                if d is None:
                    break
            else:
                if last.startswith('no trace'):
                    continue  # the same formula again
                d = self.trace(p[0])
            if d is None:
                last = 'no trace for %s' % p[2]
                continue
            rc, out = self.replay(d)
            ok = (rc == 0 and 'COMPLETED' in out) if reached else (rc not in (0, 3, None))
            if ok:
                path = os.path.join(ROOT, 'evidence/replays', '%s-%s.json' % (self.prop, self.id))
                os.makedirs(os.path.dirname(path), exist_ok=True)
                json.dump({'property': self.prop, 'harness': self.name, 'params': self.params, 'check': p[2],
                           'inputs_hex': d.hex(), 'native_output': out[-1500:],
                           'replay': 'write the bytes to a file and run PARAM0=.. PARAM1=.. /verif/kani/target/debug/kreplay %s FILE' % self.name},
                          open(path, 'w'), indent=1)
                self.violation = (path, 'the code accepts what it must refuse' if reached else p[2])
                return
            last = 'counterexample for "%s" does not reproduce: %s' % (p[2], out[-300:])
        self.error = last


def main():
    if sys.argv[1] == '--prebuild':
        codegen(['c1', 'c2'])
        return 0 if native() else 2
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    hs = codegen([prop.lower() + '_'])
    jobs = []
    for h in hs:
        n = h['pretty_name'].split('::')[-1]
        if not n.startswith(prop.lower() + '_') or (n in NEEDS_HOOK and not HOOKS):
            continue
        ps = PARAMS.get(n, ([()], [()]))[0 if tier == 'quick' else 1]
        jobs += [Job(h, p, prop, 420 if tier == 'quick' else 1500) for p in ps]
    jobs.sort(key=lambda j: (-WEIGHT.get(j.name, 1), j.id))
    workers = 8 if tier == 'quick' else 6
    samples_from = {j.id for j in sorted(jobs, key=lambda j: (WEIGHT.get(j.name, 1), j.id)) if not j.wants_panic}
    samples_from = set(sorted(samples_from, key=lambda i: i)[:4]) if tier == 'quick' else samples_from
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(lambda j: j.run(j.id in samples_from), jobs))
    known = [k for k in json.load(open(os.path.join(ROOT, 'known_findings.json'))).get('known', []) if k.get('property') == prop]
    viol = []
    for j in jobs:
        if j.violation:
            k = [x for x in known if x.get('case') == j.id]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0].get('what', j.id)))
            else:
                viol.append(j)
    errs = [j for j in jobs if j.error]
    info = INFO.get(prop, {})
    cov = {
        'states': sum(j.steps for j in jobs), 'transitions': sum(j.vccs for j in jobs),
        'traces_validated_against_impl': sum(1 for j in jobs if j.sample),
        'samples': [j.sample for j in jobs if j.sample][:6],
        'harness_runs': len(jobs), 'checks_decided': sum(j.checks for j in jobs), 'cnf_clauses': sum(j.clauses for j in jobs),
        'functions_encoded': info.get('functions', []), 'bounds': ['%s (unwind %d)' % (j.id, j.unwind) for j in jobs] + info.get('bounds', []),
        'outside_the_claim': info.get('outside', []),
        'queries_discharged': len(jobs), 'solver': 'CBMC 6.11 / CaDiCaL on Kani goto programs', 'solver_s': sum(j.wall for j in jobs),
        'slowest': [{'harness': j.id, 'wall_s': round(j.wall, 1)} for j in sorted(jobs, key=lambda j: -j.wall)[:4]],
        'explanation': 'states = steps of the symbolic program expressions, transitions = verification conditions generated from them; each harness run decides all its checks for every value of its nondeterministic inputs',
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov,
          'assumptions': ['Kani/CBMC translate the compiled code faithfully', 'the stand-ins for big integers and BLAKE2s behave as the originals (DESIGN.md)'],
          'wall_s': time.time() - t0, 'violations': len(viol)}
    path = os.path.join(ROOT, 'evidence', prop + '.json')
    if os.path.exists(path):
        o = json.load(open(path))  # of the first engine, same run
        for k in ('states', 'transitions', 'traces_validated_against_impl', 'queries_discharged', 'solver_s'):
            o['coverage'][k] = o['coverage'].get(k, 0) + cov[k]
        for k in ('samples', 'functions_encoded', 'bounds', 'outside_the_claim'):
            o['coverage'][k] = list(o['coverage'].get(k, [])) + cov[k]
        o['coverage']['bounded_model_checking'] = {k: cov[k] for k in cov if k not in ('samples', 'functions_encoded', 'bounds', 'outside_the_claim')}
        o['assumptions'] += ev['assumptions']
        o['wall_s'] += ev['wall_s']
        o['violations'] += len(viol)
        ev = o
    json.dump(ev, open(path, 'w'), indent=1)
    print('%s: harness runs=%d checks=%d vccs=%d clauses=%d cpu=%.0fs wall=%.1fs' % (prop, len(jobs), cov['checks_decided'], cov['transitions'], cov['cnf_clauses'], cov['solver_s'], time.time() - t0))
    if os.environ.get('KANI_VERBOSE'):
        for j in sorted(jobs, key=lambda j: -j.wall):
            print('  %6.1fs %s unwind=%d %s' % (j.wall, j.id, j.unwind, j.error or j.violation or ''))
    for j in viol:
        print('  %s: %s' % (j.id, j.violation[1]))
        print('VIOLATION property=%s replay=%s' % (prop, j.violation[0]))
    if viol:
        return 1
    for j in errs[:20]:
        print('ERROR %s: %s' % (j.id, j.error))
    return 2 if errs else 0


sys.exit(main())
