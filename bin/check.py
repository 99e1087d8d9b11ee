#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]       decide one property on /repo's current tree
   check.py --replay FILE                    replay a recorded violation against /repo's current tree

Deciding step: the deductive verifier (Verus; Kani for loop-free unsafe code) accepts every obligation generated from the
functions that are extracted from /repo on this run.  See DESIGN.md for the outcome policy."""
import os
import re
import sys
import json
import time
import shutil
import signal
import threading
import subprocess
import concurrent.futures

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vx'))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
import vx            # noqa: E402
from props import PROPS   # noqa: E402

REPO = vx.REPO
BUILD_LOCK = threading.Lock()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUILD = os.path.join(ROOT, 'target')
DEADLINE = time.time() + 840
os.environ.setdefault('HOME', '/root')
os.environ['PATH'] = '/root/.cargo/bin:' + os.environ.get('PATH', '') + ':/usr/local/bin:/usr/bin:/bin'
CARGO_ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.90.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
                 CARGO_INCREMENTAL='0')


def left():
    return DEADLINE - time.time()


def sh(cmd, timeout, env=None, cwd=None, reg=None):
    """-> (rc or None on timeout, stdout, stderr)"""
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    except OSError as e:
        return None, '', str(e)
    if reg is not None:
        reg.append(p)
    try:
        o, e = p.communicate(timeout=max(5, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        kill(p)
        o, e = p.communicate()
        rc = None
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


TRUST = re.compile(r'#\[verifier::external_body\]\s*(?:/\*[^*]*\*/\s*)?(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?(fn|struct)\s+(\w+)|'
                   r'\baxiom\s+fn\s+(\w+)|assume_specification[^\[]*\[([^\]]*(?:\[[^\]]*\][^\]]*)*)\]|\b(assume|admit)\s*\(')


def scan_trust(text):
    out = []
    for m in TRUST.finditer(text):
        if m.group(1) == 'fn':
            if m.group(2) not in ('vx_nondet',):
                u = re.search(r'/\* contract proved in unit (\w+) \*/', m.group(0))
                out.append(('contract of callee, proved in unit %s: fn ' % u.group(1) if u else 'contract assumed: fn ') + m.group(2))
        elif m.group(1) == 'struct':
            out.append('opaque type: ' + m.group(2))
        elif m.group(3):
            out.append('axiom: ' + m.group(3))
        elif m.group(4):
            if m.group(4).startswith('allow'):
                continue
            out.append('contract assumed: ' + ' '.join(m.group(4).split()))
        elif m.group(5):
            out.append('USE OF ' + m.group(5))
    return sorted(set(out))


HARD = ('postcondition', 'precondition', 'assertion failed', 'invariant', 'decreases', 'overflow', 'underflow', 'division by zero',
        'possible bit shift', 'recommendation', 'arithmetic', 'out of bounds', 'unreachable', 'not satisfied', 'failed', 'constructed value')
SOFT = ('rlimit', 'resource limit', 'timed out', 'solver', 'not all errors')


def run_verus(path, work, timeout, log=False, reg=None, more=()):
    cmd = ['verus', os.path.basename(path), '--triggers-mode', 'silent', '--multiple-errors', '40', '--output-json', '--time',
           '--error-format=json', '--num-threads', '4', *more]
    if log:
        cmd += ['--log-dir', os.path.join(work, 'log'), '--log', 'smt']
    rc, out, err = sh(cmd, timeout, cwd=work, reg=reg)
    res = {'rc': rc, 'cmd': ' '.join(cmd), 'json': None, 'diags': [], 'raw': err}
    try:
        res['json'] = json.loads(out[out.index('{'):]) if '{' in out else None
    except ValueError:
        pass
    for line in err.split('\n'):
        if line.startswith('{'):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get('level') == 'error':
                res['diags'].append(d)
    return res


def count_obligations(work, fns):
    """obligations per function, from the verifier's own SMT log: one per location label"""
    total, solver_fns, cur = 0, {}, None
    p = os.path.join(work, 'log')
    for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
        for line in open(os.path.join(p, f), errors='replace'):
            if line.startswith(';; Function-Def'):
                cur = line.split()[2].split('::', 1)[-1]
            elif line.startswith(';; Function-'):
                cur = None
            elif cur and 'declare-const %%location_label%%' in line:
                total += 1
                solver_fns[cur] = solver_fns.get(cur, 0) + 1
    shutil.rmtree(p, ignore_errors=True)
    return total, solver_fns


def tags_of(line):
    m = re.search(r'//#\s*([C0-9, ]+)', line)
    return set(re.findall(r'C\d\d', m.group(1))) if m else None


def run_unit(unit, prop, pats):
    """-> dict(status ok|fail|inconclusive, failures, why, ...)"""
    t0 = time.time()
    work = os.path.join(BUILD, 'verus', '%s-%s' % (prop, unit))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    R = {'unit': unit, 'status': 'ok', 'failures': [], 'why': [], 'functions': [], 'obligations': 0, 'discharged': 0, 'trusted': [],
         'rewrites': [], 'notes': [], 'probes': 0, 'probes_failed': 0, 'solver_ms': 0, 'cmd': ''}
    try:
        with BUILD_LOCK:
            res = vx.build_unit(os.path.join(ROOT, 'specs', unit + '.vx'))
    except Exception as e:   # extraction problems are never violations
        R['status'], R['why'] = 'inconclusive', ['extraction failed: %s' % e]
        return R
    path = os.path.join(work, unit + '.rs')
    open(path, 'w').write(res.text)
    R['trusted'] = scan_trust(res.text)
    R['rewrites'] = res.rewrites
    R['notes'] = res.notes
    R['fns'] = res.fns
    for f in res.fns:
        R['functions'].append('%s:%s %s' % (f['file'], f['line'], f['path']))
    probe = [Probe(unit, work, 'entry'), Probe(unit, work, 'rest')]
    for p in probe:
        p.start()
    try:
        finish_unit(R, res, unit, prop, pats, work, path, probe)
    finally:
        for p in probe:
            p.stop()
    R['wall'] = round(time.time() - t0, 1)
    return R


class Probe(threading.Thread):
    """vacuity probes: a reachable `assert(false)` at each entry, loop, end; each must be refuted"""
    def __init__(self, unit, work, mode):
        super().__init__(daemon=True)
        self.mode = mode
        self.unit, self.work, self.procs, self.err, self.stopped = unit, work, [], None, False
        self.pr, self.hit = None, set()

    def run(self):
        try:
            with BUILD_LOCK:
                self.pr = pr = vx.build_unit(os.path.join(ROOT, 'specs', self.unit + '.vx'), probes=self.mode)
            text = re.sub(r'rlimit\((\d+)\)', lambda m: 'rlimit(%d)' % min(int(m.group(1)), 40), pr.text)
            ppath = os.path.join(self.work, self.unit + '_p%s.rs' % self.mode)
            short = re.sub(r'rlimit\((\d+)\)', lambda m: 'rlimit(%d)' % min(int(m.group(1)), 12), pr.text)
            open(ppath, 'w').write(short)
            if self.stopped or not pr.probes:
                return
            plines = text.split('\n')
            self.present = {int(x) for x in re.findall(r'PROBE (\d+)', text)}
            # the whole text first; a probe that was not refuted there (resource limit), alone in its function
            self.look(ppath, plines, None)
            rest = sorted(self.present - self.hit)[:24]

            def alone(i):
                # first with everything that is not on the way to the probe assumed away (what lies after it, the bodies of
                # the function's other loops), which can only hide the probe, never reach it; then as it is
                name = pr.probe_list[i - 1].split(':')[0]
                for cut, src in ((True, short), (False, text)):
                    if self.stopped or i in self.hit:
                        return

                    def repl(m):
                        if int(m.group(1)) == i:
                            return m.group(0) + (' assume(false);' if cut else '')
                        return 'assume(false);' if cut and m.group(2).startswith(name + ' loop ') else ''
                    one = re.sub(r'if vx_nondet\(\) \{ assert\(false\); /\* PROBE (\d+) (.*?) ?\*/ \}', repl, src)
                    path = '%s%d%s.rs' % (ppath[:-3], i, '' if cut else 'f')
                    open(path, 'w').write(one)
                    self.look(path, one.split('\n'), name, '12' if cut else '40')
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                list(pool.map(alone, rest))
        except Exception as e:
            self.err = e

    def look(self, path, plines, name, rlimit='40'):
        pv = run_verus(path, self.work, min(300, left() - 40), reg=self.procs,
                       more=('--verify-root', '--verify-function', '*' + name, '--rlimit', rlimit) if name else ())
        for d in pv['diags']:
            for s in d.get('spans', []):
                if s['file_name'] != os.path.basename(path) and not s['file_name'].endswith('/' + os.path.basename(path)):
                    continue
                l = plines[s['line_start'] - 1] if s['line_start'] <= len(plines) else ''
                m = re.search(r'PROBE (\d+)', l)
                if m and 'rlimit' not in d.get('message', ''):
                    self.hit.add(int(m.group(1)))

    def stop(self):
        self.stopped = True
        for p in self.procs:
            if p.poll() is None:
                kill(p)
        self.join(20)


def finish_unit(R, res, unit, prop, pats, work, path, probe):
    v = run_verus(path, work, min(400, left() - 60), log=True)
    R['cmd'] = v['cmd']
    lines = res.text.split('\n')
    if res.lost:
        R['status'] = 'inconclusive'
        R['why'] += ['anchor lost: ' + x for x in res.lost]
    if v['json'] is None or v['rc'] is None:
        R['status'] = 'inconclusive'
        R['why'].append('verifier gave no result' + (' (timeout)' if v['rc'] is None else ''))
        for d in v['diags'][:5]:
            R['why'].append(d['message'][:300])
        return R
    vr = v['json'].get('verification-results', {})
    try:
        R['solver_ms'] = v['json']['times-ms']['smt']['total']
    except (KeyError, TypeError):
        pass
    total, per = count_obligations(work, res.fns)
    R['obligations'] = total
    R['per_function'] = per
    if vr.get('encountered-vir-error') or (not vr.get('verified') and not vr.get('errors')):
        R['status'] = 'inconclusive'
        R['why'] += ['the extracted code is outside the verifier\'s language subset: ' + d['message'][:300] for d in v['diags'][:5]]
        R['why'] = R['why'] or ['verifier error']
        return R
    nfail = 0
    soft = False
    for d in v['diags']:
        msg = d['message']
        if msg.startswith('aborting due to'):
            continue
        nfail += 1
        fn, src, clause, ln = attribute(d, res, lines)
        if any(s in msg for s in SOFT) or not any(h in msg for h in HARD):
            soft = True
            R['why'].append('%s: %s' % (fn['path'] if fn else '?', msg[:200]))
            continue
        tg = tags_of(clause)
        if tg is None and fn and fn.get('props'):
            tg = set(fn['props'])
        rec = {'obligation': msg, 'function': fn['path'] if fn else None, 'source': src, 'clause': clause.strip(), 'unit_line': ln,
               'rendered': (d.get('rendered') or '')[:3000]}
        if tg is not None and prop not in tg:
            rec['other'] = sorted(tg)
            R.setdefault('other', []).append(rec)
            continue
        if fn is None:
            soft = True
            R['why'].append('an auxiliary lemma is not proved: %s (unit line %s)' % (msg, ln))
            continue
        if pats and not any(re.search(p, fn['path'] + '|' + fn['name']) for p in pats):
            R.setdefault('other', []).append(rec)
            continue
        R['failures'].append(rec)
    R['discharged'] = max(0, total - nfail)
    relevant_notes = [n for n in res.notes if not n.startswith('~')]
    if R['failures']:
        if relevant_notes:
            names = {n.split(':')[0] for n in relevant_notes}
            hard = [f for f in R['failures'] if f['function'].split()[-1] not in names and not any(n.startswith('definition changed') for n in relevant_notes)]
            if hard:
                R['status'] = 'fail' if R['status'] == 'ok' else R['status']
            else:
                R['status'] = 'inconclusive'
                R['why'].append('obligations fail, but the annotated structure changed: ' + '; '.join(sorted(set(relevant_notes))[:6]))
        elif R['status'] == 'ok':
            R['status'] = 'fail'
    elif soft and R['status'] == 'ok':
        R['status'] = 'inconclusive'
    if R['status'] == 'ok' and res.surface:
        # e.g. a provided method of a trait is overridden: the contracts say nothing about it
        R['status'] = 'inconclusive'
        R['why'].append('the types under contract changed outside the functions under contract: ' + '; '.join(res.surface[:6]))
    # vacuity probes: each must be refutable
    if R['status'] == 'ok':
        for p in probe:
            p.join()
            if p.err or p.pr is None:
                R['status'] = 'inconclusive'
                R['why'].append('vacuity probes: %s' % p.err)
                return R
            present = getattr(p, 'present', set(range(1, p.pr.probes + 1)))   # probes in loops that a listed rewrite removed are not in the text
            R['probes'] += len(present)
            R['probes_failed'] += len(p.hit)
            missing = [i for i in sorted(present) if i not in p.hit]
            if missing:
                R['status'] = 'inconclusive'
                R['why'].append('vacuity probes not refuted: ' + ', '.join(p.pr.probe_list[i - 1] for i in missing[:5]))
        if R['probes'] == 0:
            R['status'] = 'inconclusive'
            R['why'].append('no obligation generated from source')
    return R


def attribute(d, res, lines):
    """(function record, source position, clause text, unit line) of a diagnostic"""
    prim = [s for s in d.get('spans', []) if s.get('is_primary')] or d.get('spans', [])
    clause, ln = '', None
    if prim:
        ln = prim[0]['line_start']
        clause = lines[ln - 1] if ln <= len(lines) else ''
    for s in d.get('spans', []):
        if (s.get('label') or '').startswith('failed'):
            clause = lines[s['line_start'] - 1] if s['line_start'] <= len(lines) else clause
    fn = None
    order = [s for s in d.get('spans', []) if not (s.get('label') or '').startswith('failed precondition')] + d.get('spans', [])
    src = None
    for s in order:
        for f in res.fns:
            if f['out'][0] <= s['line_start'] <= f['out'][1]:
                fn = fn or f
                if s['line_start'] in res.map and not src:
                    src = '%s:%s' % res.map[s['line_start']]
        if fn:
            break
    if fn and not src:
        src = '%s:%s' % (fn['file'], fn['line'])
    return fn, src, clause, ln


# ------------------------------------------------------------------------------------------------------------- Kani
def run_kani(crate, harnesses, prop):
    t0 = time.time()
    R = {'crate': crate, 'status': 'ok', 'failures': [], 'why': [], 'harnesses': {}, 'obligations': 0, 'discharged': 0}
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(BUILD, 'kani-' + crate))
    env.pop('RUSTUP_TOOLCHAIN', None)
    env['RUSTFLAGS'] = '--cap-lints allow'
    cmd = ['cargo', 'kani', '--output-format', 'terse', '--exact']
    for h in harnesses:
        cmd += ['--harness', 'proofs::' + h]
    R['cmd'] = ' '.join(cmd)
    rc, out, err = sh(cmd, min(500, left() - 60), env=env, cwd=os.path.join(ROOT, 'kani', crate))
    if rc is None:
        R['status'], R['why'] = 'inconclusive', ['kani: timeout']
        return R
    cur = None
    for line in out.split('\n'):
        m = re.match(r'Checking harness (\S+?)\.\.\.', line)
        if m:
            cur = m.group(1).split('::')[-1]
            R['harnesses'][cur] = {'result': None, 'failed': []}
        m = re.search(r'\*\* (\d+) of (\d+) failed', line)
        if m and cur:
            R['harnesses'][cur]['n'] = (int(m.group(2)), int(m.group(1)))
        m = re.match(r'Failed Checks: (.*)', line)
        if m and cur:
            R['harnesses'][cur]['failed'].append(m.group(1))
        m = re.match(r'Verification Time: ([0-9.e-]+)s', line)
        if m:
            R['solver_ms'] = R.get('solver_ms', 0) + int(1000 * float(m.group(1)))
        m = re.match(r'VERIFICATION:- (\w+)', line)
        if m and cur:
            R['harnesses'][cur]['result'] = m.group(1)
            n, bad = R['harnesses'][cur].get('n', (0, 0))
            R['obligations'] += n
            R['discharged'] += n if m.group(1) == 'SUCCESSFUL' else n - bad   # a should_panic harness succeeds by its expected panic
    for h in harnesses:
        r = R['harnesses'].get(h)
        if not r or not r['result']:
            R['status'] = 'inconclusive'
            R['why'].append('kani: harness %s gave no result: %s' % (h, (err or out)[-300:]))
        elif r['result'] != 'SUCCESSFUL':
            if any('unwinding' in f or 'unsupported' in f.lower() for f in r['failed']) or not r['failed']:
                R['status'] = 'inconclusive'
                R['why'].append('kani: %s: %s' % (h, r['failed'][:2]))
            else:
                R['failures'].append({'obligation': '; '.join(r['failed']), 'function': h, 'source': None, 'clause': '', 'rendered': out[-3000:]})
    if R['failures'] and R['status'] == 'ok':
        R['status'] = 'fail'
    R['wall'] = round(time.time() - t0, 1)
    return R


# ---------------------------------------------------------------------------------------------------------- witness
def build_witness(crate, need_bins):
    env = dict(CARGO_ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'witness'))
    d = os.path.join(ROOT, 'witness', crate)
    rc, out, err = sh(['cargo', 'build', '--offline', '--quiet'], min(400, left() - 60), env=env, cwd=d)
    if rc != 0:
        return None, 'witness engine does not build: ' + (err or '')[-600:]
    if need_bins:
        env = dict(CARGO_ENV, CARGO_TARGET_DIR=os.path.join(BUILD, 'repo'))
        cmd = ['cargo', 'build', '--offline', '--locked', '--quiet', '--manifest-path', os.path.join(REPO, 'Cargo.toml')]
        for b in need_bins:
            cmd += ['-p', b]
        rc, out, err = sh(cmd, min(400, left() - 60), env=env)
        if rc != 0:
            return None, 'the tools do not build: ' + (err or '')[-600:]
    return os.path.join(BUILD, 'witness', 'debug', crate), None


def run_witness(prop, cfg, secs, seed):
    crate = cfg['witness']
    t0 = time.time()
    exe, why = build_witness(crate, cfg.get('bins'))
    if not exe:
        return {'status': 'unavailable', 'why': why}
    out = os.path.join(BUILD, 'witness-out', prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ, VX_BIN=os.path.join(BUILD, 'repo', 'debug'), RUST_BACKTRACE='0')
    rc, so, se = sh([exe, prop, str(seed), str(secs), out], min(secs + 90, left() - 20), env=env)
    m = re.search(r'^RESULT (.*)$', so, re.M)
    if not m:
        return {'status': 'unavailable', 'why': 'witness engine ended without a result (rc %s): %s' % (rc, (se or so)[-400:])}
    r = json.loads(m.group(1))
    r['status'] = 'found' if r.get('failure') else 'none'
    r['wall'] = round(time.time() - t0, 1)
    return r


def known_findings():
    """(property, key) of findings that are recorded, not repaired"""
    out = []
    try:
        for line in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
            m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', line)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    pre = threading.Thread(target=build_witness, args=(cfg['witness'], cfg.get('bins')), daemon=True) if cfg.get('witness') else None
    if pre:
        pre.start()
    ulist = cfg.get('units', [])
    units = [None] * len(ulist)

    def one(i):
        units[i] = run_unit(ulist[i][0], prop, ulist[i][1])
    ths = [threading.Thread(target=one, args=(i,), daemon=True) for i in range(len(ulist))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for i, u in enumerate(units):
        if u is None:
            units[i] = {'unit': ulist[i][0], 'status': 'inconclusive', 'failures': [], 'why': ['the driver failed on this unit'], 'functions': [],
                        'obligations': 0, 'discharged': 0}
    if pre:
        pre.join()
    kanis = [run_kani(c, hs, prop) for c, hs in cfg.get('kani', [])]
    parts = units + kanis
    # units whose contracts Kani decides as well, on the compiled crate and for all inputs: Kani has the last word
    backed = [u for u in units if u.get('unit') in cfg.get('backed', ()) and u['status'] != 'ok' and kanis and all(k['status'] == 'ok' for k in kanis)]
    for u in backed:
        u['status'] = 'inconclusive'
        u['why'].append('the same contracts are discharged by Kani on the compiled crate')
    failures = [f for p in parts for f in (p['failures'] if p['status'] == 'fail' else [])]
    inconcl = [p for p in parts if p['status'] == 'inconclusive' and p not in backed]
    soft_fail = [f for p in inconcl for f in p['failures']]
    secs = {'quick': cfg.get('quick_s', 8), 'thorough': cfg.get('thorough_s', 240)}[tier]
    if failures or inconcl:
        secs = max(secs, cfg.get('search_s', 60))
    wit = None
    if cfg.get('witness'):
        wit = run_witness(prop, cfg, int(min(secs, max(5, left() - 200))), SEED)
    known = known_findings()
    viol = None
    if wit and wit.get('status') == 'found':
        f = wit['failure']
        k = [x for x in known if x[0] == prop and x[1] and x[1] in f.get('what', '')]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0][2]))
        else:
            viol = ('input', f)
    if not viol and failures:
        viol = ('proof', failures)
    proved = all(p['status'] == 'ok' or p in backed for p in parts) and bool(parts)
    level = cfg.get('level', 'proof')
    if not proved:
        level = 'exploration' if wit and wit.get('status') in ('none', 'found') else 'other'
    write_evidence(prop, tier, level, cfg, parts, wit, proved, viol, time.time() - t0)
    for p in parts:
        for w in p['why']:
            print('NOTE %s: %s' % (p.get('unit', p.get('crate')), w))
        print('%s %s: %s, %d obligations, %d discharged' % (prop, p.get('unit', p.get('crate')), p['status'], p['obligations'], p['discharged']))
    if wit:
        print('%s real-code validation: %s (%s cases)' % (prop, wit['status'], wit.get('evaluations', 0)))
        if wit['status'] == 'unavailable':
            print('NOTE ' + str(wit['why']))
    if viol:
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, prop + '.json')
        rec = {'property': prop, 'kind': viol[0]}
        if viol[0] == 'input':
            rec.update({'witness': cfg['witness'], 'bins': cfg.get('bins'), 'failure': viol[1],
                        'how': 'python3 bin/check.py --replay %s' % rp, 'failed_obligations': failures + soft_fail})
            json.dump(rec, open(rp, 'w'), indent=1)
            print('failing input: ' + viol[1].get('what', '')[:500])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else:
            rec.update({'failed_obligations': viol[1], 'search': wit})
            json.dump(rec, open(rp, 'w'), indent=1)
            for f in viol[1][:5]:
                print('failed obligation: %s | %s | %s | %s' % (f['obligation'], f['function'], f['source'], f['clause']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        return 1
    if proved:
        print('OK %s: every obligation discharged' % prop)
    else:
        print('OK %s: NOT PROVED on this tree (see notes); nothing found violating it on everything explored' % prop)
    return 0


def write_evidence(prop, tier, level, cfg, parts, wit, proved, viol, wall):
    cov = {
        'proved_on_this_tree': proved,
        'obligations': sum(p['obligations'] for p in parts),
        'discharged': sum(p['discharged'] for p in parts),
        'checker_cmd': ' && '.join(p.get('cmd', '') for p in parts),
        'trusted_base': sorted(set(t for p in parts for t in p.get('trusted', []))) + cfg.get('trust', []),
        'back_ends': sorted({'Verus/Z3' if 'unit' in p else 'Kani/CBMC' for p in parts}),
        'functions_under_contract': sorted(set(f for p in parts for f in p.get('functions', []))) + cfg.get('fns', []),
        'solver_time_ms': sum(p.get('solver_ms', 0) for p in parts),
        'vacuity_probes': {'inserted': sum(p.get('probes', 0) for p in parts), 'refuted': sum(p.get('probes_failed', 0) for p in parts)},
        'extraction_rewrites': [r for p in parts for r in p.get('rewrites', [])],
        'extraction_drops': 'comments, attributes, visibility, no-op statements, items under a false cfg; macros listed in extraction_rewrites',
        'status': {p.get('unit', p.get('crate')): p['status'] for p in parts},
        'notes': [w for p in parts for w in p['why']] + [n for p in parts for n in p.get('notes', [])],
    }
    for p in parts:
        if 'harnesses' in p:
            cov.setdefault('kani_harnesses', {}).update({h: r['result'] for h, r in p['harnesses'].items()})
    if cfg.get('bounded'):
        cov['bounded_parts'] = cfg['bounded']
    if wit:
        cov['validation_on_real_code'] = {k: wit.get(k) for k in ('status', 'evaluations', 'distinct_nontrivial', 'rule', 'samples', 'why', 'wall')}
        for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples'):
            if wit.get(k) is not None:
                cov[k] = wit[k]
    if level == 'other':
        cov['explanation'] = 'the proof did not go through on this tree (see notes) and the exploration was not available'
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': cfg.get('assume', []),
          'wall_s': round(wall, 1), 'violations': 1 if viol else 0}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)


def replay(path):
    rec = json.load(open(path))
    if rec['kind'] != 'input':
        print('no failing input recorded; failed obligations:')
        for f in rec['failed_obligations']:
            print(f['rendered'])
        return 1
    exe, why = build_witness(rec['witness'], rec.get('bins'))
    if not exe:
        print(why)
        return 2
    env = dict(os.environ, VX_BIN=os.path.join(BUILD, 'repo', 'debug'))
    f = rec['failure']
    out = os.path.join(BUILD, 'witness-out', rec['property'] + '-replay')
    os.makedirs(out, exist_ok=True)
    rc, so, se = sh([exe, rec['property'], str(f['seed']), 'case', str(f['case']), out], 120, env=env)
    print(so)
    return 1 if '"failure":{' in so.replace(' ', '') else 0


if __name__ == '__main__':
    sys.exit(main())
