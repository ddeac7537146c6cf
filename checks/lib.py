"""Shared machinery of the checks: compiling entry points to LLVM IR, running the analyser,
collecting obligations, writing evidence, printing verdicts."""
import concurrent.futures as cf
import fcntl
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CTA_REPO', '/repo')
INC = os.path.join(REPO, 'include')
ENGINE_SRC = os.path.join(VERIF, 'engine')
CTA = os.path.join(VERIF, 'build', 'cta')
CLANG = 'clang++'
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-fconstexpr-steps=200000000', '-fbracket-depth=4096', '-ftemplate-depth=4096']
JOBS = int(os.environ.get('CTA_JOBS', '8'))


class Broken(Exception):
    """The analysis itself cannot be carried out (exit 2)."""


def build_engine():
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    with open(os.path.join(VERIF, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        newest = max(os.path.getmtime(os.path.join(ENGINE_SRC, f)) for f in os.listdir(ENGINE_SRC))
        if os.path.exists(CTA) and os.path.getmtime(CTA) >= newest:
            return
        fl = subprocess.run(['llvm-config-18', '--cxxflags'], capture_output=True, text=True, check=True).stdout.split()
        fl = [f for f in fl if not f.startswith('-std=') and f not in ('-fno-exceptions', '-DNDEBUG')]
        cmd = ['g++', '-std=c++20', '-O2', '-w'] + fl + ['-fno-rtti', os.path.join(ENGINE_SRC, 'main.cpp'), '-o', CTA + '.new',
                                                        '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken('the analyser does not build: ' + r.stderr[-2000:])
        os.rename(CTA + '.new', CTA)


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obligations = self.discharged = 0
        self.violations, self.unproved, self.notes, self.cmds, self.samples = [], [], [], [], []
        self.counts = {}
        self.assumptions = []
        self.rule = ''
        self.level = 'proof'
        self.trusted = ['clang 18 front end (C++ to unoptimised LLVM IR)', 'the analyser /verif/engine', 'the reference definitions in /verif/engine/spec.hpp']
        self.lock = threading.Lock()
        self.dir = tempfile.mkdtemp(prefix='cta-')
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.deadline = self.t0 + float(os.environ.get('CTA_BUDGET', '800' if self.quick else '6000'))

    # ---- collecting
    def ok(self, n=1):
        with self.lock:
            self.obligations += n
            self.discharged += n

    def oblig(self, good, what):
        """One obligation: discharged, or a violation."""
        with self.lock:
            self.obligations += 1
            if good:
                self.discharged += 1
            else:
                self.violations.append(what)
        return good

    def open(self, what):
        with self.lock:
            self.obligations += 1
            self.unproved.append(what)

    def violation(self, what):
        with self.lock:
            if what not in self.violations:
                self.violations.append(what)

    def note(self, what):
        with self.lock:
            self.notes.append(what)

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, what):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(what)

    def merge(self, r, label):
        with self.lock:
            self.obligations += r['obligations']
            self.discharged += r['discharged']
            for v in r['violations']:
                v = '%s: %s' % (label, v) if label else v
                if v not in self.violations:
                    self.violations.append(v)
            self.unproved += ['%s: %s' % (label, v) for v in r['unproved']]
            for k, n in r['counts'].items():
                self.counts[k] = self.counts.get(k, 0) + n
            for n in r['notes']:
                if n not in self.notes:
                    self.notes.append(n)

    # ---- tools
    def src(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def compile(self, name, text, std='c++23', inc=None, extra=(), must=True):
        """C++ entry points -> LLVM bitcode (never linked, never run)."""
        p = self.src(name + '.cpp', text)
        bc = os.path.join(self.dir, name + '.bc')
        cmd = [CLANG, '-std=' + std] + IRFLAGS + ['-I' + (inc or INC)] + list(extra) + ['-emit-llvm', '-c', p, '-o', bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            if must:
                raise Broken('entry points %s do not compile: %s' % (name, first_error(r.stderr)))
            return None
        self.count('translation units analysed')
        return bc

    def definitions(self, name, text, std='c++23', inc=None):
        """(symbol, linkage) of every definition a translation unit emits"""
        p = self.src(name + '.cpp', text)
        r = subprocess.run([CLANG, '-std=' + std, '-O0', '-w', '-I' + (inc or INC), '-S', '-emit-llvm', p, '-o', '-'], capture_output=True, text=True)
        if r.returncode:
            raise Broken('%s does not compile: %s' % (name, first_error(r.stderr)))
        self.count('translation units analysed')
        out = []
        weak = ('linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'internal', 'private', 'available_externally', 'appending', 'common')
        for l in r.stdout.split('\n'):
            m = re.match(r'define (\w+) .*?@("[^"]+"|[\w.$]+)\(', l) or re.match(r'@("[^"]+"|[\w.$]+) = (\w+) ', l)
            if not m:
                continue
            a, b = m.groups()
            sym, link = (b, a) if l.startswith('define') else (a, b)
            if link == 'external' or 'external' in l.split(' = ')[-1][:40] and not l.startswith('define'):
                continue  # a declaration
            out.append((sym, link if link in weak else 'external'))
        return out

    def syntax(self, name, text, cxx=CLANG, std='c++23', inc=None, extra=(), cmd_only=False):
        """Does it compile? (type checking only) -> (ok, first error)"""
        p = self.src(name + '.cpp', text)
        opt = ['-fsyntax-only', '-w', '-I' + (inc or INC)] + list(extra)
        if 'clang' in cxx:
            opt += ['-fconstexpr-steps=200000000', '-fbracket-depth=4096']
        else:
            opt += ['-fconstexpr-ops-limit=1000000000', '-fconstexpr-loop-limit=10000000']
        r = subprocess.run([cxx, '-std=' + std] + opt + [p], capture_output=True, text=True)
        self.count('translation units type-checked')
        return r.returncode == 0, first_error(r.stderr)

    def consteval_copy(self):
        """A copy of the headers in which constant evaluation is the only kind of evaluation."""
        d = os.path.join(self.dir, 'consteval')
        shutil.copytree(INC, d)
        n = 0
        for root, _, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                with open(p) as fh:
                    t = fh.read()
                t, k1 = re.subn(r'\bif\s*(!|\bnot\b)\s*consteval\b', 'if constexpr (false)', t)
                t, k2 = re.subn(r'\bif\s+consteval\b', 'if constexpr (true)', t)
                t, k3 = re.subn(r'(::)?\bstd\s*::\s*is_constant_evaluated\s*\(\s*\)|\b__builtin_is_constant_evaluated\s*\(\s*\)', 'true', t)
                if k1 + k2 + k3:
                    n += k1 + k2 + k3
                    with open(p, 'w') as fh:
                        fh.write(t)
        return d, n

    def target(self, triple):
        """Compiler options for another target, with the host's standard headers."""
        d = os.path.join(self.dir, 'target')
        os.makedirs(os.path.join(d, 'gnu'), exist_ok=True)
        for f in ('stubs-32.h', 'stubs-64.h'):
            with open(os.path.join(d, 'gnu', f), 'w') as fh:
                fh.write('')
        r = subprocess.run([CLANG, '-E', '-v', '-x', 'c++', '/dev/null', '-o', '/dev/null'], capture_output=True, text=True)
        ls = r.stderr.split('search starts here:')[-1].splitlines()
        dirs = [os.path.realpath(l.strip()) for l in ls if l.startswith(' ') and os.path.isdir(l.strip())]
        return ['--target=' + triple, '-I' + d, '-nostdinc', '-nostdinc++'] + [x for p in dirs for x in ('-isystem', p)]

    def cta(self, mode, bc, alg, pfx, timeout=None, **opt):
        """Runs the analyser; None if it gave no answer (time, memory, unsupported construct)."""
        cmd = [CTA, mode, bc, alg, pfx] + ['%s=%s' % kv for kv in opt.items()]
        left = self.deadline - time.time()
        timeout = min(timeout or left, left)
        env = dict(os.environ)
        shown = ' '.join(['cta', mode, os.path.basename(bc), alg, pfx] + cmd[5:])
        with self.lock:
            self.cmds.append(shown)
        if timeout <= 1:
            self.note('no time left for: ' + shown)
            return None
        cmd.append('limit=%d' % max(1, int(timeout * 0.93 - 2)))
        try:
            r = subprocess.run(['bash', '-c', 'ulimit -v 6000000; exec "$@"', 'x'] + cmd, capture_output=True, text=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            self.note('gave up after %d s: %s' % (timeout, shown))
            return None
        try:
            j = json.loads(r.stdout)
        except ValueError:
            self.note('no answer (exit %d) from %s: %s' % (r.returncode, shown, r.stderr[-300:]))
            return None
        if 'error' in j:
            self.note('no answer from %s: %s' % (shown, j['error']))
            return None
        return j

    def run(self, jobs):
        """Runs callables in parallel; the first exception is re-raised."""
        fs = [self.pool.submit(j) for j in jobs]
        err = None
        for f in fs:
            try:
                f.result()
            except Exception as e:  # noqa: BLE001
                err = err or e
        if err:
            raise err

    # ---- verdict
    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        known = known_findings(self.pid)
        fresh = []
        for v in self.violations:
            k = next((k for k in known if k['match'] in v), None)
            if k:
                k['seen'] = True
            else:
                fresh.append(v)
        cov = {
            'obligations': self.obligations, 'discharged': self.discharged,
            'checker_cmd': '; '.join(self.cmds[:6]) + (' (and %d more analyses)' % (len(self.cmds) - 6) if len(self.cmds) > 6 else '')
            if self.cmds else 'python3 checks/check.py %s --tier %s' % (self.pid, self.tier),
            'trusted_base': self.trusted, 'rule': self.rule, 'analysed': self.counts,
            'samples': self.samples, 'unproved': self.unproved[:40], 'notes': self.notes[:40],
        }
        if self.level == 'other':
            cov['explanation'] = self.rule
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in known:
            if k.get('seen'):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s: %d obligations, %d discharged, %d not decided, %d violations; %s; %.1f s' % (
            self.pid, self.obligations, self.discharged, len(self.unproved), len(fresh),
            ', '.join('%s %s' % (n, k) for k, n in self.counts.items()), time.time() - self.t0))
        if not fresh:
            for u in self.unproved[:6]:
                print('  not decided: ' + u[:400])
        for n in self.notes[:6]:
            print('  note: ' + n[:400])
        if fresh:
            rp = os.path.join(evd, self.pid + '.replay.txt')
            with open(rp, 'w') as f:
                f.write('property %s is violated (tier %s)\nreproduce: cd /verif && python3 checks/check.py %s --tier %s\n\n' % (self.pid, self.tier, self.pid, self.tier))
                f.write('\n'.join(fresh) + '\n\nanalyses:\n' + '\n'.join(self.cmds) + '\n')
            for v in fresh[:6]:
                print('  ' + v[:700])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.obligations == 0 or self.discharged == 0:
            print('nothing was decided: the analysis is broken')
            return 2
        return 0


def first_error(s):
    for l in s.splitlines():
        if 'error:' in l:
            return l[:400]
    return s[:400]


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [dict(k) for k in json.load(f)['findings'] if k['property'] == pid]


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print('usage: check.py PROPERTY [--tier quick|thorough]; properties: ' + ' '.join(sorted(table)))
        return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    c = Check(sys.argv[1], tier)
    try:
        build_engine()
        table[sys.argv[1]](c)
    except Broken as e:
        if not c.violations:
            shutil.rmtree(c.dir, ignore_errors=True)
            print('ANALYSIS BROKEN: %s' % e)
            return 2
        c.note(str(e))
    return c.finish()
