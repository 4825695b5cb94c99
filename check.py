#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current source.

1. vx extracts the functions under contract from /repo (every run), 2. Verus discharges every
obligation of the property's units, 3. the real code is searched for an input that leaves the
contract.  Exit 0: held; exit 1 with a VIOLATION line otherwise."""
import glob, json, os, re, subprocess, sys, time, threading, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from conf import UNITS, PROPS

REPO = os.environ.get('VX_REPO', '/repo')
B = os.path.join(HERE, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
T0 = time.time()
VX = os.path.join(B, 'vx', 'release', 'vx')


def env(**kw):
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTFLAGS', None)
    e['RUSTC_WRAPPER'] = ''
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e.update(kw)
    return e


def run(cmd, cwd=None, timeout=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, text=True, errors='replace')


def build_vx():
    r = run(['cargo', 'build', '--offline', '--release', '--quiet'], cwd=os.path.join(HERE, 'tool', 'vx'),
            CARGO_TARGET_DIR=os.path.join(B, 'vx'))
    if r.returncode:
        raise RuntimeError('vx does not build:\n' + r.stderr[-3000:])


def build_replay(which):
    if which == 'replayq':
        r = run([os.path.join(HERE, 'replayq', 'prep.sh'), os.path.join(B, 'smtp-queue')])
        if r.returncode:
            return None, r.stderr[-3000:]
    r = run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, which),
            CARGO_TARGET_DIR=os.path.join(B, which))
    if r.returncode:
        return None, r.stderr[-3000:]
    return os.path.join(B, which, 'debug', which), ''


def expand():
    """macro-expanded smtp-message, with hygiene marks"""
    out = os.path.join(B, 'expanded.rs')
    r = run(['cargo', '+nightly', 'rustc', '--offline', '--quiet', '-p', 'smtp-message', '--lib', '--',
             '-Zunpretty=expanded,hygiene'], cwd=os.path.join(HERE, 'replay'),
            CARGO_TARGET_DIR=os.path.join(B, 'expand'), RUSTUP_TOOLCHAIN='nightly')
    if r.returncode:
        raise RuntimeError('expansion failed:\n' + r.stderr[-3000:])
    open(out, 'w').write(r.stdout)
    return out


class Unit:
    """one contract file, extracted and verified"""

    support = False

    def __init__(self, name, work, expanded):
        self.name, self.work, self.expanded = name, work, expanded
        self.opt = UNITS[name]
        self.undecided = []      # why no verdict
        self.failed = {}         # function -> [messages]
        self.rlimited = {}
        self.ok = {}             # function -> dict(time, mode)
        self.vacuous = []
        self.smt_ms = 0
        self.backends = set()
        self.report = None
        self.asserts = 0

    def extract(self, canary=False):
        suf = '_canary' if canary else ''
        self.src = os.path.join(self.work, 'u_%s%s.rs' % (self.name, suf))
        rep = os.path.join(self.work, 'u_%s%s.json' % (self.name, suf))
        cmd = [VX, 'unit', os.path.join(HERE, 'contracts', 'u_%s.rs' % self.name), '--repo', REPO,
               '--out', self.src, '--report', rep, '--canary', '1' if canary else '0']
        if self.opt.get('expanded'):
            cmd += ['--expanded', '@msg=' + self.expanded]
        if self.opt.get('dep'):
            # a dependency's own source, where cargo keeps it
            d, fs = self.opt['dep']
            home = os.environ.get('CARGO_HOME') or '/root/.cargo'
            at = sorted(glob.glob(os.path.join(home, 'registry', 'src', '*', d, 'src')))
            if not at:
                self.undecided.append('extraction: no source of ' + d)
                return False
            for f in fs:
                cmd += ['--file', '@%s/%s=%s' % (d.split('-')[0], f, os.path.join(at[0], f))]
        r = run(cmd)
        if r.returncode:
            self.undecided.append('extraction: ' + r.stderr.strip()[:2000])
            return False
        self.report = json.load(open(rep))
        return True

    def verus(self, src, rlimit, extra, timeout):
        try:
            r = run(['verus', os.path.basename(src), '--output-json', '--time-expanded', '--multiple-errors', '4',
                     '--rlimit', str(rlimit)] + extra + ['--', '--error-format=json'], cwd=self.work, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, 'timeout after %d s' % timeout, []
        diags = []
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
                if d.get('$message_type') == 'diagnostic':
                    diags.append(d)
            except ValueError:
                pass
        try:
            j = json.loads(r.stdout)
        except ValueError:
            return None, (r.stdout + r.stderr)[-2000:], diags
        return j, '', diags

    @staticmethod
    def functions(j):
        out = {}
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                n = f['function'].split('::', 1)[1] if '::' in f['function'] else f['function']
                n = re.sub(r'^impl&%\d+::', '', n)
                o = out.setdefault(n, dict(ok=True, ms=0, mode=f.get('mode:', '')))
                o['ok'] = o['ok'] and f['success']
                o['ms'] += f.get('time', 0)
        return out

    def locate(self, line, src):
        """the function of the generated file that holds a line"""
        if not hasattr(self, '_lines'):
            self._lines = open(src).read().split('\n')
        for i in range(min(line, len(self._lines)) - 1, -1, -1):
            m = re.match(r'\s*(?:pub |#\[[^\]]*\]\s*|open |broadcast |async |unsafe )*(?:exec |proof |spec )?fn\s+(\w+)', self._lines[i])
            if m:
                return m.group(1)
        return '?'

    def attempt(self, extra, rlimit, timeout, backend):
        j, err, diags = self.verus(self.src, rlimit, extra, timeout)
        if j is None:
            self.undecided.append('verifier gave no result: ' + err)
            return None
        vr = j.get('verification-results', {})
        fns = self.functions(j)
        if vr.get('encountered-vir-error') or (not fns and not vr.get('success')):
            msg = '; '.join(d.get('message', '') + ' @' + ','.join(str(s['line_start']) for s in d['spans'][:1])
                            for d in diags if d.get('level') == 'error')[:2000]
            self.undecided.append('front end: ' + msg)
            return None
        self.smt_ms += j.get('times-ms', {}).get('smt', {}).get('total', 0) or 0
        bad, rl = {}, {}
        for d in diags:
            if d.get('level') != 'error' or not d.get('spans') or d['message'].startswith('aborting'):
                continue
            # the function being checked: for a failed precondition the call site is the primary span's
            fn = None
            for s in d['spans']:
                f = self.locate(s['line_start'], self.src)
                if any(k.split('::')[-1] == f and not v['ok'] for k, v in fns.items()):
                    fn = f
                    if s.get('is_primary'):
                        break
            fn = fn or self.locate(d['spans'][0]['line_start'], self.src)
            tgt = rl if 'rlimit' in d['message'] or 'Resource limit' in d['message'] else bad
            tgt.setdefault(fn, []).append(d.get('rendered', d['message'])[:1200])
        for n, o in fns.items():
            if o['ok']:
                if n not in self.ok:
                    self.ok[n] = dict(ms=o['ms'], mode=o['mode'], backend=backend)
                self.failed.pop(n, None)
                self.rlimited.pop(n, None)
            elif n not in self.ok:
                short = n.split('::')[-1]
                if short in bad:
                    self.failed[n] = bad[short]
                    self.rlimited.pop(n, None)
                elif n not in self.failed:
                    self.rlimited[n] = rl.get(short, ['no result'])
        self.backends.add(backend)
        return True

    def verify(self, deadline):
        if not self.extract():
            return
        rl = self.opt.get('rlimit', 30) * (3 if THOROUGH else 1)
        tries = [([], rl, 'z3'),
                 (['--smt-option', 'smt.random_seed=%d' % (SEED + 6)], rl, 'z3'),
                 (['--smt-option', 'smt.random_seed=%d' % (SEED + 40)], 2 * rl, 'z3')]
        for k, (extra, r, be) in enumerate(tries):
            left = deadline - time.time()
            if left < 20:
                break
            before = len(self.undecided)
            if self.attempt(extra, r, min(left, (220 if not THOROUGH else 900)), be) is None:
                if k < 2 and self.undecided[before:] and all('timeout' in x for x in self.undecided[before:]):
                    # the solver ran away: once more with another seed
                    del self.undecided[before:]
                    self.ranaway = True
                    continue
                break
            if not self.failed and not self.rlimited:
                break
        if THOROUGH and not self.failed and not self.undecided and self.opt.get('cvc5') and deadline - time.time() > 60:
            pass

    def canary(self, deadline):
        """every function under contract must be able to reach its end: `assert(false)` there must fail"""
        c = Unit(self.name, self.work, self.expanded)
        if not c.extract(canary=True):
            return
        left = deadline - time.time()
        if left < 10:
            return
        # (a canary whose solver runs away tells nothing)
        j, err, diags = c.verus(c.src, min(60, self.opt.get('rlimit', 30)), [], min(left, 120))
        if j is None:
            return
        fns = self.functions(j)
        for f in c.report['functions']:
            vn = f.get('vname')
            hits = [o for n, o in fns.items() if n.split('::')[-1] == vn and o['mode'] == 'exec']
            if hits and all(o['ok'] for o in hits) and vn not in self.opt.get('noreturn', []):
                self.vacuous.append(vn)

    def trusted(self):
        t = open(self.src).read()
        out = []
        ctx = ''
        for l in t.split('\n'):
            m = re.search(r'(?:impl[^{]*?(?:for )?|trait |mod )\s*([A-Z]\w*)', l) if re.match(r'\s*(pub )?(impl|trait)', l) else None
            if m:
                mm = re.search(r'\bfor\s+(&?\w+)', l)
                ctx = mm.group(1) if mm else re.sub(r'^\s*(pub )?(impl|trait)(<[^>]*>)?\s*', '', l).split('{')[0].split('<')[0].split(':')[0].strip()
            if 'external_body' in l or re.search(r'\baxiom\b', l):
                m = re.search(r'\b(fn|struct)\s+(\w+)', l)
                if m:
                    out.append((ctx + '::' if m.group(1) == 'fn' and l.startswith(' ') else '') + m.group(2))
            if re.search(r'\b(assume|admit)\s*\(', l):
                out.append('ASSUME: ' + l.strip())
        for m in re.finditer(r'pub trait (\w+)[^{]*\{(.*?)\n\}', t, re.S):
            pass
        return sorted(set(out))


def support(units):
    """units whose proved contracts these units take for granted, and so on"""
    def uses(f, seen):
        out = set()
        if f in seen:
            return out
        seen.add(f)
        for l in open(os.path.join(HERE, 'contracts', f)):
            m = re.match(r'\s*//@contracts (\S+) from (\w+)', l)
            if m:
                out.add(m.group(2))
            m = re.match(r'\s*//@proved (\S+) in (\w+)', l)
            if m:
                out.add(m.group(2))
            m = re.match(r'\s*//@include (\S+)', l)
            if m:
                out |= uses(m.group(1), seen)
                # nom's own functions, declared there
                out |= {'dep_nom.rs': {'nom'}, 'dep_parse.rs': {'nom', 'nomcrlf'}, 'dep_config.rs': {'stream'}}.get(m.group(1), set())
        return out
    done, todo = set(), list(units)
    while todo:
        u = todo.pop()
        if u not in done:
            done.add(u)
            todo += uses('u_%s.rs' % u, set())
    return sorted(done - set(units))


def known():
    """(cases not to report again, lines to print)"""
    f = os.path.join(HERE, 'known_findings.txt')
    ks = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) case=(.*?) what=(.*)$', l.strip())
            if m:
                ks.append(m.groups())
    return ks


def search(pid, ms, work, res):
    which = PROPS[pid].get('search', 'replay')
    if which is None:
        res['none'] = True
        return
    exe, err = build_replay(which)
    if exe is None:
        res['error'] = 'search program does not build: ' + err
        return
    out = os.path.join(work, 'search.json')
    kn = []
    for p, c, w in known():
        if p == pid:
            kn += ['--known', c]
    base = [exe, pid, '--seed', str(SEED), '--ms', str(ms), '--out', out] + kn
    res['cmd'] = ' '.join(base[:6])
    lim = 'ulimit -v 20000000; exec "$@"'
    try:
        r = run(['bash', '-c', lim, 'x'] + base, cwd=work, timeout=ms / 1000 + 120)
    except subprocess.TimeoutExpired:
        res['error'] = 'search timed out'
        return
    line = [l for l in r.stdout.splitlines() if l.startswith('{')]
    if not line:
        # the process died: find the case it died on
        tr = os.path.join(work, 'case.txt')
        try:
            r2 = run(['bash', '-c', lim, 'x'] + base[:4] + ['--ms', str(4 * ms), '--trace', tr] + kn, cwd=work, timeout=4 * ms / 1000 + 60)
            if r2.returncode not in (0, 4) and os.path.exists(tr):
                res['violation'] = dict(case=open(tr).read(), what='the process died: ' + (r2.stderr[-600:] or 'signal %d' % -r2.returncode))
                return
        except subprocess.TimeoutExpired:
            pass
        res['error'] = 'search died (%d): %s' % (r.returncode, r.stderr[-1500:])
        return
    res.update(json.loads(line[-1]))


def main():
    pid = sys.argv[1]
    p = PROPS[pid]
    work = os.path.join(B, 'run', pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    limit = T0 + (800 if not THOROUGH else 3000)
    ms = p.get('ms', 20000) if not THOROUGH else p.get('ms_thorough', 240000)
    if 'VX_MS' in os.environ:
        ms = int(os.environ['VX_MS'])
    sres = {}
    st = threading.Thread(target=search, args=(pid, ms, work, sres))
    st.start()
    units = []
    prep_err, sup = None, []
    try:
        build_vx()
        exp = expand() if any(UNITS[u].get('expanded') for u in p['units']) else ''
        units = [Unit(u, work, exp) for u in p['units']]
        sup = support(p['units'])
        if THOROUGH:
            for u in sup:
                units.append(Unit(u, work, exp))
                units[-1].support = True
    except RuntimeError as e:
        prep_err = str(e)
    ths = []
    for u in units:
        t = threading.Thread(target=u.verify, args=(limit - 60,))
        t.start()
        ths.append(t)
        t = threading.Thread(target=u.canary, args=(limit - 60,))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    st.join()
    sys.exit(verdict(pid, p, units, prep_err, sres, work, [] if THOROUGH else sup))


def verdict(pid, p, units, prep_err, s, work, elsewhere):
    undecided = [prep_err] if prep_err else []
    failed, discharged, vac = {}, {}, []
    fns_under, trusted, inlined = [], [], []
    for u in units:
        rx = p['units'].get(u.name)
        sel = lambda n: n.startswith('vx_') or rx is None or re.search(rx, n)
        undecided += ['unit %s: %s' % (u.name, x) for x in u.undecided]
        for n, m in u.failed.items():
            if u.support:
                # a contract this property builds on is not met: the proof has no base (the violation is
                # reported by the property which states that contract)
                undecided.append('unit %s: %s: contract relied on, not proved' % (u.name, n))
            elif sel(n):
                failed[u.name + '::' + n] = m
        for n, m in u.rlimited.items():
            if sel(n):
                undecided.append('unit %s: %s: solver gave up (%s)' % (u.name, n, m[0].split('\n')[0]))
        for n, o in u.ok.items():
            if sel(n):
                discharged[u.name + '::' + n] = o
        vac += ['%s::%s' % (u.name, x) for x in u.vacuous]
        if u.report and not u.undecided:
            fns_under += ['%s %s' % (f['file'], f['path']) for f in u.report['functions']]
            for f in u.report['functions']:
                inlined += ['%s <- %s' % (f['path'], i) for i in f.get('inlined', [])]
            trusted += u.trusted()
    if vac:
        undecided.append('unreachable under its contract: ' + ', '.join(vac))
    obligations = len(discharged) + len(failed)
    proved = bool(units) and not undecided and not failed and obligations > 0
    viol = s.get('violation')
    out = []
    code = 0
    rdir = os.path.join(B, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + '.json')
    if viol:
        json.dump(dict(property=pid, case=viol['case'], what=viol['what'], command='VERIF_SEED=%d %s' % (SEED, s.get('cmd', '')),
                       failed_obligations={k: v for k, v in failed.items()}), open(rpath, 'w'), indent=1)
        out.append('  input: %s' % viol['case'][:1000])
        out.append('  %s' % viol['what'][:2000])
        for k in failed:
            out.append('  failed obligation: %s' % k)
        out.append('VIOLATION property=%s replay=%s' % (pid, rpath))
        code = 1
    elif failed:
        json.dump(dict(property=pid, failed_obligations=failed, search=s), open(rpath, 'w'), indent=1)
        for k, v in failed.items():
            out.append('  failed obligation: %s\n%s' % (k, v[0]))
        out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath))
        code = 1
    elif not proved and (s.get('error') or s.get('none')):
        out.append('neither proof nor search gave an answer: %s; %s' % ('; '.join(undecided), s.get('error')))
        code = 3
    if not viol:
        for q, c, w in known():
            if q == pid and c in s.get('known_hit', []):
                out.insert(0, 'KNOWN-FINDING: property=%s %s' % (pid, w))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
              level='proof' if proved or failed else 'exploration', wall_s=round(time.time() - T0, 1), violations=1 if code == 1 else 0)
    smt = sum(u.smt_ms for u in units)
    cov = dict(
        obligations=obligations, discharged=len(discharged),
        checker_cmd='vx unit contracts/u_X.rs --repo /repo (extraction, every run); verus u_X.rs, X in ' + ', '.join(u.name for u in units),
        trusted_base=sorted(set(trusted)) + ['Verus and z3', 'the extraction rules of tool/vx (DESIGN.md)'],
        functions_under_contract=sorted(set(fns_under)), helpers_inlined=sorted(set(inlined)),
        back_end='z3 (Verus)', solver_ms=smt,
        unit_of_count='one obligation = all verification conditions of one function (exec or proof) of the generated file',
        evaluations=s.get('evaluations', 0), distinct_nontrivial=s.get('distinct_nontrivial', 0),
        rule=s.get('rule', 'none'), samples=s.get('samples', []),
        bounded_search='real code run against the contract, seed %d; complete for: %s' % (SEED, '; '.join(s.get('exhaustive', [])) or 'nothing'),
    )
    if elsewhere:
        cov['contracts_relied_on'] = {u: sorted(q for q in PROPS if u in PROPS[q]['units']) for u in elsewhere}
        cov['contracts_relied_on_note'] = ('contracts of these units are used at calls; their bodies are verified by the checks named '
                                           '(in the thorough tier by this check itself)')
    if undecided:
        cov['undecided'] = undecided
        cov['explanation'] = 'not proved on this source: decided by the bounded search only'
    if failed:
        cov['failed'] = sorted(failed)
    ev['coverage'] = cov
    ev['assumptions'] = p.get('assume', []) + ASSUME
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if proved:
        out.insert(0, 'proved: %s, %d obligations in units %s, solver %d ms; search: %d cases, no failing input (%.0f s)' % (
            pid, obligations, ', '.join(u.name for u in units), smt, s.get('evaluations', 0), time.time() - T0))
    elif code == 0:
        out.insert(0, 'bounded: %s not decided by proof on this source (%s); search of %d cases found no failing input' % (
            pid, '; '.join(undecided)[:1500], s.get('evaluations', 0)))
    print('\n'.join(out))
    return code


ASSUME = [
    'dependency contracts in contracts/dep_*.rs describe bytes 0.4, futures 0.3 and std (listed in trusted_base)',
    'async code is verified as direct-style code: awaiting a future runs it to completion; dropping a future midway is not covered',
    'Pin is erased; the unsafe projections in Prependable are not checked for pinning',
    'machine integers are machine integers; allocation failure is not modelled',
]

if __name__ == '__main__':
    main()
