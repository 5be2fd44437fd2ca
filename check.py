#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property of /repo. See DESIGN.md.

Exit 0: held. Exit 1 with `VIOLATION property=ID replay=PATH`: broken. Exit 2: no answer.
"""
import argparse, concurrent.futures, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
sys.path.insert(0, VERIF)
from registry import PROPS, TRUSTED  # noqa: E402

ENV = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'RUSTC_BOOTSTRAP', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN')}
ENV['CARGO_NET_OFFLINE'] = 'true'
ENV['CARGO_INCREMENTAL'] = '0'  # rustc 1.70 can crash on reused incremental state


def sh(cmd, cwd, timeout, env=None):
    """(exit code, stdout, stderr); exit code None on timeout. The whole process group goes."""
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env={**ENV, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors='replace', start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


# the native crate that has the bodies of a crate of Kani harnesses
KANI_NATIVE = {'kani': 'native', 'tween_kani': 'tween'}


class Unavailable(Exception):
    """This engine gives no answer on this tree (with the reason)."""


# ---- native: search and replay on the real crates ----

class Native:
    def __init__(self, crate, names=()):
        self.crate, self.lock, self.built = crate, threading.Lock(), None
        # one cargo feature per property whose bodies are needed (native crate only)
        self.features = ','.join(sorted({n.split('_')[0] for n in names}))

    def binary(self):
        with self.lock:
            if self.built is None:
                target = os.path.join(BUILD, self.crate)
                env = {'RUSTUP_TOOLCHAIN': '1.70.0'}
                if self.crate == 'native':
                    env['RUSTFLAGS'] = '--cfg constellation_verif'
                rc, o, e = sh(['cargo', 'build', '--offline', '--locked', '--target-dir', target]
                              + (['--features', self.features] if self.crate == 'native' else []), os.path.join(VERIF, self.crate), 500, env)
                b = os.path.join(target, 'debug', 'replay')
                self.built = (b, None) if rc == 0 else (None, (o + e)[-6000:])
        if self.built[0] is None:
            raise Unavailable('the %s harness does not build against this tree:\n%s' % (self.crate, self.built[1]))
        return self.built[0]

    def search(self, prefixes, seed, secs):
        """Run every body on generated inputs, in 8 processes with different seeds."""
        b = self.binary()
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda i: sh([b, 'search', '+'.join(prefixes), str(seed * 16 + i), str(secs)], VERIF, secs + 120), range(6)))
        out = {}
        for rc, o, e in rs:
            for l in o.splitlines():
                if not l.startswith('{'):
                    continue
                j = json.loads(l)
                t = out.setdefault(j['body'], {'body': j['body'], 'runs': 0, 'kept': 0, 'fail': None})
                t['runs'] += j['runs']
                t['kept'] += j['kept']
                f = j['fail']
                if f and (t['fail'] is None or len(f['inputs']) < len(t['fail']['inputs'])):
                    t['fail'] = f
            if rc != 0:
                # the process died (abort, stack overflow): the body that was running is the last one begun
                body = re.findall(r'^begin (\S+)', e, re.M)
                name = body[-1] if body else prefixes[0]
                t = out.setdefault(name, {'body': name, 'runs': 0, 'kept': 0, 'fail': None})
                if t['fail'] is None:
                    inp = re.findall(r'^running (\S*)$', e, re.M)
                    t['fail'] = {'inputs': inp[-1] if inp else '', 'run': 0,
                                 'message': 'the process running it ended with status %s: %s' % (rc, e[-400:].replace('\n', ' | '))}
        return list(out.values())

    def one(self, body, inputs):
        rc, o, e = sh([self.binary(), 'one', body, inputs], VERIF, 120)
        try:
            return json.loads(o.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return {'body': body, 'fails': True, 'discarded': False, 'message': 'process ended with status %s: %s' % (rc, e[-400:])}


# ---- Kani ----

def kani(crate, groups, tier, timeout):
    """Each group is a list of alternative harnesses for one obligation set: any one discharges it."""
    names = [h for g in groups for h in g]
    per = 90 if tier == 'quick' else 1500
    cmd = ['cargo', 'kani', '--target-dir', os.path.join(BUILD, crate), '-j', '8', '--output-format', 'terse',
           '-Z', 'unstable-options', '--harness-timeout', '%ds' % per, '--exact']
    for n in names:
        cmd += ['--harness', n]
    t0 = time.time()
    rc, o, e = sh(cmd, os.path.join(VERIF, crate), timeout)
    text = o + '\n' + e
    res = {}
    current = {}
    thread = None
    for l in text.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            current[m.group(1) or '-'] = m.group(2)
            res[m.group(2)] = {'status': 'undecided', 'checks': 0, 'failed': [], 'time': 0.0, 'cover': None, 'log': ''}
            thread = m.group(1) or '-'
            continue
        m = re.match(r'Thread (\d+):\s*$', l)
        if m:
            thread = m.group(1)
            continue
        h = res.get(current.get(thread))
        if h is None:
            continue
        h['log'] += l + '\n'
        m = re.search(r'\*\* (\d+) of (\d+) failed', l)
        if m:
            h['checks'] = int(m.group(2))
        m = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', l)
        if m:
            h['cover'] = m.group(1) == m.group(2)
        m = re.search(r'Verification Time: ([\d.]+)s', l)
        if m:
            h['time'] = float(m.group(1))
        m = re.match(r'Failed Checks: (.*)', l)
        if m:
            h['failed'].append(m.group(1))
        if 'VERIFICATION:- SUCCESSFUL' in l:
            h['status'] = 'proved' if h['cover'] in (True, None) else 'vacuous'
        if 'VERIFICATION:- FAILED' in l:
            h['status'] = 'timeout' if 'timed out' in h['log'] or 'CBMC timed out' in h['log'] else 'failed'
    for n in names:
        if n not in res:
            res[n] = {'status': 'undecided', 'checks': 0, 'failed': [], 'time': 0.0, 'cover': None, 'log': ''}
    if not any(r['checks'] for r in res.values()):
        raise Unavailable('Kani gives no answer on this tree:\n' + text[-5000:])
    return res, ' '.join(cmd), time.time() - t0


def kani_values(crate, harness):
    """The counterexample of a failing harness, as replay input."""
    cmd = ['cargo', 'kani', '--target-dir', os.path.join(BUILD, crate), '--exact', '--harness', harness, '--output-format', 'terse',
           '-Z', 'unstable-options', '--harness-timeout', '200s', '-Z', 'concrete-playback', '--concrete-playback=print']
    rc, o, e = sh(cmd, os.path.join(VERIF, crate), 400)
    outs = []
    for t in re.findall(r'concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S):
        vals = re.findall(r'vec!\[([\d,\s]*)\]', t)
        outs.append(','.join(''.join('%02x' % int(b) for b in v.split(',') if b.strip()) for v in vals))
    return outs, o[-4000:]


# ---- Verus ----

class Verus:
    """Extracts the functions under contract of one unit (verus/UNIT.rs) from the macro-expanded crates and verifies them."""
    lock = threading.Lock()
    prepared = None

    def __init__(self, unit):
        self.unit = unit

    def prepare(self):
        """Expand the crates and build the extractor, once for all units."""
        with Verus.lock:
            if Verus.prepared is None:
                os.makedirs(BUILD, exist_ok=True)
                try:
                    with concurrent.futures.ThreadPoolExecutor(2) as ex:
                        b = ex.submit(self.extractor)
                        crates = [self.expand('tp_client', 'tp_client'), self.expand('arena', 'arena'), self.expand('generational-arena', 'generational_arena')]
                        Verus.prepared = (crates, b.result(), None)
                except Unavailable as x:
                    Verus.prepared = (None, None, x)
        self.crates, self.bin, err = Verus.prepared
        if err:
            raise err
        if self.unit == 'decl':
            with Verus.lock:
                self.crates = self.crates + [self.expand('decl', 'decl')]
        if self.unit == 'capi':
            # with the feature `c_api`, whose macros need the compiler the code base is built with
            with Verus.lock:
                self.crates = [c for c in self.crates if not c.startswith('tp_client=')] + \
                    [self.expand(n, n, 'expand_c', {'RUSTUP_TOOLCHAIN': '1.70.0'}) for n in ('tp_client', 'rsharp', 'unity_states', 'tp_contract_example')]

    def expand(self, package, name, crate='expand', env={}):
        d = os.path.join(VERIF, crate)
        rc, o, e = sh(['cargo', 'rustc', '--offline', '--locked', '--target-dir', os.path.join(BUILD, crate), '-p', package, '--lib',
                       '--profile', 'check', '--', '-Zunpretty=expanded'], d, 500, dict(env, RUSTC_BOOTSTRAP='1'))
        if rc != 0:
            raise Unavailable('%s does not expand:\n%s' % (package, e[-4000:]))
        p = os.path.join(BUILD, name + ('' if crate == 'expand' else '.' + crate) + '.expanded.rs')
        with open(p, 'w') as f:
            f.write(o)
        return '%s=%s' % (name, p)

    def extractor(self):
        t = os.path.join(BUILD, 'extract')
        rc, o, e = sh(['cargo', 'build', '--offline', '--locked', '--target-dir', t], os.path.join(VERIF, 'extract'), 400)
        if rc != 0:
            raise Unavailable('the extractor does not build:\n' + e[-3000:])
        return os.path.join(t, 'debug', 'extract')

    def extract(self, external, smoke=False):
        env = {'EXTERNAL': ';'.join(external)}
        if smoke:
            env['SMOKE'] = '1'
        rc, o, e = sh([self.bin, os.path.join(VERIF, 'verus', self.unit + '.rs'), self.out, self.out + '.json'] + self.crates, VERIF, 120, env)
        self.index = json.load(open(self.out + '.json')) if rc in (0, 3) else []
        if rc not in (0, 3):
            raise Unavailable('extraction failed:\n' + e[-3000:])
        return e

    def function_at(self, line):
        for x in self.index:
            if x['from'] <= line < x['to']:
                return x['fn']
        return None

    def verify(self, extra=()):
        cmd = ['verus', os.path.basename(self.out), '-A', 'warnings', '--output-json', '--time-expanded', '--multiple-errors', '3',
               '--num-threads', '8'] + list(extra)
        rc, o, e = sh(cmd, BUILD, 600)
        i = o.find('{')
        j = json.loads(o[i:]) if i >= 0 else {}
        return ' '.join(cmd), j, e

    def errors(self, e):
        """[(function under contract or None, line, text)]"""
        out = []
        for block in re.split(r'\n(?=error)', '\n' + e):
            if not re.match(r'error', block.strip()):
                continue
            if re.match(r'error: aborting', block.strip()):
                continue
            lines = [int(x) for x in re.findall(r'%s:(\d+):\d+' % re.escape(os.path.basename(self.out)), block)]
            # the other places the error points at (a contract may stand in a trait, away from the body that breaks it)
            if re.search(r'--> \S*' + re.escape(os.path.basename(self.out)), block):
                lines += [int(x) for x in re.findall(r'^ *(\d+) +\|', block, re.M)]
            fns = [f for f in map(self.function_at, lines) if f]
            out.append((fns, lines[0] if lines else 0, block.strip()))
        return out

    def run(self, smoke=False):
        t0 = time.time()
        self.out = os.path.join(BUILD, 'v_' + self.unit + ('_smoke.rs' if smoke else '.rs'))
        self.prepare()
        external, notes = [], []
        for attempt in range(6):
            lost = self.extract(external, smoke)
            cache = None
            if os.environ.get('VERIF_CACHE'):  # development only
                h = hashlib.sha256(open(self.out, 'rb').read()).hexdigest()[:24]
                cache = os.path.join(BUILD, 'cache-' + h + '.json')
            if cache and os.path.exists(cache):
                cmd, j, e = json.load(open(cache))
            else:
                cmd, j, e = self.verify(['--rlimit', '30'])
                if cache:
                    json.dump([cmd, j, e], open(cache, 'w'))
            r = j.get('verification-results', {})
            # what rustc does not accept of the extracted text is out of the verifier's reach, not a failed obligation
            errs = self.errors(e)
            out = [x for x in errs if x[0] and x[2].startswith('error[E')]
            if out or r.get('encountered-vir-error') or 'smt' not in j.get('times-ms', {}):
                # rustc or Verus does not accept some body: assume that function's contract instead
                bad = {f for fns, _, t in out or errs for f in (fns if 'support' in t.split('\n')[0] else fns[:1])} - set(external)
                if not bad:
                    raise Unavailable('Verus does not accept the extracted code:\n' + (lost + e)[-5000:])
                external += sorted(bad)
                notes.append(e[-1500:])
                continue
            break
        else:
            raise Unavailable('Verus does not accept the extracted code:\n' + e[-5000:])
        fns = {}
        for x in self.index:
            t = fns.setdefault(x['fn'], {'external': '', 'errors': [], 'n': 0})
            t['n'] += 1
            t['external'] = t['external'] or x['external']
        times = {}
        obligations = 0
        for m in j['times-ms']['smt'].get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                obligations += 1
                times[f['function']] = times.get(f['function'], 0) + f.get('time', 0)
        loose = []
        for names, line, text in self.errors(e):
            if names:
                fns[names[0]]['errors'].append(text)
                for n in names[1:]:
                    if n != names[0] and 'precondition' not in text:
                        fns[n]['errors'].append(text)
            else:
                loose.append(text)
        return {'cmd': cmd, 'functions': fns, 'loose': loose, 'verified': r.get('verified', 0), 'errors': r.get('errors', 0),
                'smt_ms': j['times-ms']['smt'].get('total', 0), 'times': times, 'wall_s': round(time.time() - t0, 1), 'stderr': e,
                'notes': notes, 'lost': lost}


def rocq(name):
    """A lemma about arithmetic that an axiom of a Verus unit rests on."""
    d = os.path.join(BUILD, 'rocq')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(VERIF, 'rocq', name + '.v')) as f, open(os.path.join(d, name + '.v'), 'w') as g:
        g.write(f.read())
    rc, o, e = sh(['coqc', name + '.v'], d, 120)
    if rc:
        raise Unavailable((o + e)[-1000:])
    return 'coqc ' + name + '.v'


def matches(pats, fn):
    return any(re.fullmatch(p, fn) for p in pats)


# ---- one property ----

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) body=(\S+) inputs=(\S*) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append({'body': m.group(2), 'inputs': m.group(3), 'match': m.group(4), 'what': m.group(5)})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    spec = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    secs = (spec.get('secs', 6) if tier == 'quick' else 120)
    ex = concurrent.futures.ThreadPoolExecutor(8)
    jobs = {}
    kanis = {}
    for key in ('kani', 'kani_thorough') if tier == 'thorough' else ('kani',):
        g = spec.get(key, {})
        for c, x in (g if isinstance(g, dict) else {'kani': g}).items():
            if x:
                kanis[c] = kanis.get(c, []) + x
    natives = {c: Native(c, list(p) + [h for g in kanis.get('kani', []) for h in g]) for c, p in spec.get('native', {}).items()}
    for c, groups in kanis.items():
        jobs['kani ' + c] = ex.submit(kani, c, groups, tier, 700 if tier == 'quick' else 7000)
    units = spec.get('verus', {})
    if isinstance(units, list):
        units = {'core': units}
    for u in units:
        jobs['verus ' + u] = ex.submit(Verus(u).run)
    for f in spec.get('rocq', []):
        jobs['rocq ' + f] = ex.submit(rocq, f)
    for c, n in natives.items():
        jobs['native ' + c] = ex.submit(n.search, spec['native'][c], seed, secs)
    for name, fn in spec.get('scripts', {}).items():
        jobs['script ' + name] = ex.submit(fn, VERIF, BUILD, REPO, tier, seed, sh)

    violations, undecided, notes = [], [], []
    cov = {'obligations': 0, 'discharged': 0, 'checker_cmd': [], 'trusted_base': list(spec.get('trusted', [])), 'functions_under_contract': [],
           'solver_s': 0.0, 'undecided': undecided, 'stand_in': []}
    answered = False
    found_input = []

    def get(k):
        try:
            return jobs[k].result()
        except Unavailable as x:
            undecided.append('%s: %s' % (k, str(x)[:3000]))
        except Exception as x:  # a machinery error is no verdict
            undecided.append('%s: internal error %r' % (k, x))
        return None

    # native first: a failing input is the best report
    known = known_findings(prop)
    for c, n in natives.items():
        r = get('native ' + c)
        if r is None:
            continue
        answered = True
        for b in r:
            if b['fail']:
                hit = [k for k in known if k['body'] == b['body'] and re.search(k['match'], b['fail']['message'])]
                if hit:
                    continue
                rr = n.one(b['body'], b['fail']['inputs'])
                found_input.append({'engine': 'search on the real code', 'crate': c, 'body': b['body'], 'inputs': b['fail']['inputs'],
                                    'message': b['fail']['message'], 'replayed': rr.get('fails'),
                                    'command': '.build/%s/debug/replay one %s %s' % (c, b['body'], b['fail']['inputs'])})
        cov['stand_in'].append({'bounded': True, 'crate': c, 'seconds_per_process': secs, 'processes': 6,
                                'bodies': [{'body': b['body'], 'runs': b['runs'], 'in_domain': b['kept']} for b in r]})
        for k in known:
            try:
                rr = n.one(k['body'], k['inputs'])
                if rr.get('fails') and re.search(k['match'], rr.get('message', '')):
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            except Unavailable:
                pass
    for name in spec.get('scripts', {}):
        r = get('script ' + name)
        if r is None:
            continue
        answered = True
        cov['stand_in'].append({'bounded': True, 'script': name, **r.get('coverage', {})})
        for f in r.get('failures', []):
            found_input.append({'engine': name, 'body': name, 'inputs': f.get('input', ''), 'message': f['message'], 'replayed': True,
                                'command': f.get('command', '')})

    for c, groups in kanis.items():
        nc = KANI_NATIVE[c]
        r = get('kani ' + c)
        if r is not None:
            res, cmd, wall = r
            cov['checker_cmd'].append(cmd)
            for g in groups:
                st = [res[h]['status'] for h in g]
                n = max([res[h]['checks'] for h in g] + [1])
                cov['solver_s'] += sum(res[h]['time'] for h in g)
                cov['obligations'] += n
                if 'failed' in st and 'proved' not in st:
                    answered = True
                    h = g[st.index('failed')]
                    real = [x for x in res[h]['failed'] if not re.search(r'unwinding|is not currently supported|unsupported', x)]
                    if not real:
                        undecided.append('%s: %s' % (h, '; '.join(res[h]['failed'])))
                        continue
                    v = {'obligation': 'Kani proof %s: %s' % (h, '; '.join(real)), 'back_end': 'Kani/CBMC', 'output': res[h]['log'][-3000:]}
                    vals, log = kani_values(c, h)
                    base = re.sub(r'_alt\d+$', '', h)
                    if nc in natives:
                        nat = natives[nc]
                        for x in vals:
                            try:
                                rr = nat.one(base, x)
                            except Unavailable:
                                break
                            if rr.get('fails'):
                                v['counterexample'] = {'body': base, 'inputs': x, 'message': rr['message'], 'replayed': True,
                                                       'command': '.build/%s/debug/replay one %s %s' % (nc, base, x)}
                                found_input.append({'engine': 'counterexample of the proof, replayed on the real code', 'crate': nc, **v['counterexample']})
                                break
                    violations.append(v)
                elif 'proved' in st:
                    answered = True
                    cov['discharged'] += n
                    cov['functions_under_contract'].append({'body': g[0], 'back_end': 'Kani/CBMC', 'checks': n})
                else:
                    undecided.append('Kani proof %s: %s' % (g[0], ', '.join(st)))
    for f in spec.get('rocq', []):
        r = get('rocq ' + f)
        if r is not None:  # says nothing about the code by itself: an axiom of a unit rests on it
            cov['checker_cmd'].append(r)
            cov['obligations'] += 1
            cov['discharged'] += 1
            cov['functions_under_contract'].append({'lemma': 'rocq/%s.v' % f, 'back_end': 'Rocq/Flocq'})
    for u, pats in units.items():
        r = get('verus ' + u)
        if r is not None:
            cov['checker_cmd'].append(r['cmd'])
            cov['solver_s'] += r['smt_ms'] / 1000.0
            cov['verus_total_obligations'] = cov.get('verus_total_obligations', 0) + r['verified'] + r['errors']
            mine = {f: x for f, x in r['functions'].items() if matches(pats, f)}
            if not mine:
                undecided.append('no function of this property is under contract in unit ' + u)
            for f, x in sorted(mine.items()):
                cov['obligations'] += x['n']
                if x['errors'] and all('Resource limit' in t for t in x['errors']):
                    undecided.append('contract of %s: %s' % (f, x['errors'][0][:1000]))
                elif x['errors']:
                    answered = True
                    violations.append({'obligation': 'contract of %s' % f, 'back_end': 'Verus/Z3', 'output': '\n\n'.join(x['errors'])[:6000]})
                elif x['external']:
                    undecided.append('contract of %s: %s' % (f, x['external']))
                else:
                    answered = True
                    cov['discharged'] += x['n']
                    cov['functions_under_contract'].append({'function': f, 'back_end': 'Verus/Z3', 'instances': x['n']})
            if r['loose']:
                # a lemma of the template fails: the code's types are not the ones the contracts are about
                undecided.append('lemmas over the contracts: ' + '\n\n'.join(r['loose'])[:3000])
            if tier == 'thorough':
                try:
                    s = Verus(u).run(smoke=True)
                    vac = [f for f, x in s['functions'].items() if f in mine and not x['errors'] and not x['external']]
                    cov['vacuity_check ' + u] = '%d functions refute an inserted assert(false)' % (len(mine) - len(vac))
                    if vac:
                        undecided.append('vacuous contracts: ' + ', '.join(vac))
                except Unavailable as x:
                    notes.append('vacuity check: ' + str(x)[:500])
    ex.shutdown(wait=False)

    # ---- report ----
    cov['checker_cmd'] = ' ; '.join(cov['checker_cmd']) or 'native search only'
    cov['trusted_base'] += TRUSTED.get('common', []) + (TRUSTED['kani'] if spec.get('kani') else []) + (TRUSTED['verus'] if spec.get('verus') else [])
    for u in spec.get('verus') or {}:
        cov['trusted_base'] += TRUSTED.get('verus/%s' % u, [])
    cov['solver_s'] = round(cov['solver_s'], 2)
    if spec['level'] == 'translation_validation':
        cov['programs'] = len({f['function'].split('::')[1].split('@')[-1] for f in cov['functions_under_contract'] if f.get('function', '').startswith('decl::')})
        cov['disagreements_checked'] = cov['obligations'] + sum(b['runs'] for x in cov['stand_in'] for b in x.get('bodies', []))
        cov['samples'] = cov['functions_under_contract'][:20]
    if spec['level'] == 'exploration':
        runs = sum(b['runs'] for x in cov['stand_in'] for b in x.get('bodies', [])) + sum(x.get('evaluations', 0) for x in cov['stand_in'])
        kept = sum(b['in_domain'] for x in cov['stand_in'] for b in x.get('bodies', [])) + sum(x.get('distinct', 0) for x in cov['stand_in'])
        cov['evaluations'], cov['distinct_nontrivial'] = runs, kept
        cov['rule'] = spec.get('rule', 'generated inputs biased to boundary values; non-trivial: inside the domain of the property')
        cov['samples'] = [x.get('samples') or x.get('bodies') or x.get('script') for x in cov['stand_in']]
    failed = bool(violations or found_input)
    replay = None
    if failed:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        replay = os.path.join(VERIF, 'replays', prop + '.json')
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'failing_inputs': found_input, 'failed_obligations': violations,
                       'how_to_replay': 'python3 check.py %s rebuilds the replayer; then run the command of a failing input in /verif' % prop}, f, indent=1)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov, 'assumptions': spec.get('assumptions', []) + notes,
          'wall_s': round(time.time() - t0, 1), 'violations': len(violations) + len(found_input)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for u in undecided:
        print('UNDECIDED (bounded stand-in decides): ' + u.strip().splitlines()[0][:300])
    print('%s: %d of %d obligations discharged, %d failing inputs, %.0f s' % (prop, cov['discharged'], cov['obligations'], len(found_input), ev['wall_s']))
    if failed:
        for v in violations:
            print('  failed obligation: ' + v['obligation'][:300])
        for x in found_input:
            print('  failing input: %s %s: %s' % (x['body'], x['inputs'][:120], x['message'][:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if found_input else ' no-failing-input-found'))
        return 1
    if not answered:
        print('no engine could decide ' + prop)
        for u in undecided:
            print(u)
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
