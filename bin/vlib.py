"""What the checks share: building drivers, running them, and having TLC judge their traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
REPO = '/repo'
OVERLAY = os.environ.get('VERIF_OVERLAY')  # for development: a go build overlay over /repo
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def known_findings(prop):
    """The findings listed for a property: what fails by the key the specification gives it."""
    listed = {}
    with open(os.path.join(VERIF, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                listed[m.group(2)] = m.group(3)
    return listed


class CheckError(Exception):
    """The check could not reach a verdict."""


class Violation(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(PATH='/opt/veriftools/go1.25.14/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin',
             HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build',
             GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off')
    return e


class Run:
    """One run of a check: its scratch directory, seed, tier and what it covered."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.stages, self.violations, self.known = [], [], [], [], []
        self.built = {}

    def thorough(self):
        return self.tier == 'thorough'

    def left(self):
        """Seconds until the check should be done."""
        return (780 if self.thorough() else 600) - (time.time() - self.t0)

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    # -- building --------------------------------------------------------------------------------------------------
    def build(self, cmd, race=False):
        key = (cmd, race)
        if key not in self.built:
            out = self.path(cmd + ('.race' if race else ''))
            mod = self.path('go.mod')
            if not os.path.exists(mod):
                for f in ('go.mod', 'go.sum'):
                    shutil.copy(os.path.join(VERIF, 'harness', f), self.path(f))
            args = ['go', 'build', '-modfile', mod, '-o', out] + (['-overlay', OVERLAY] if OVERLAY else []) + (['-race'] if race else []) + ['./cmd/' + cmd]
            r = subprocess.run(args, cwd=os.path.join(VERIF, 'harness'), env=go_env(), capture_output=True, text=True, timeout=800)
            if r.returncode:
                raise CheckError('building %s: %s' % (cmd, r.stderr[-2000:]))
            self.built[key] = out
        return self.built[key]

    # -- drivers ---------------------------------------------------------------------------------------------------
    def drive(self, binary, args, timeout=300, env=None, crash=None):
        """Runs a driver.  crash(stderr) may turn the death of the driver into a violation."""
        e = go_env()
        e.update(env or {})
        e['TMPDIR'] = self.scratch
        try:
            r = subprocess.run([binary] + [str(a) for a in args], env=e, capture_output=True, encoding='utf-8', errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('%s %s: no end after %d s' % (os.path.basename(binary), args, timeout))
        if r.returncode:
            if crash:
                crash(r)
            raise CheckError('%s %s: exit %d\n%s' % (os.path.basename(binary), args, r.returncode, r.stderr[-3000:]))
        return r

    # -- TLC -------------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, trace=None, workers=8, timeout=400, cases=None, xss='64m', heap=None):
        meta = tempfile.mkdtemp(dir=self.scratch)
        env = dict(os.environ)
        if trace:
            env['TRACE'] = trace
        if cases:
            env['CASES'] = cases
        spec = os.path.join(VERIF, 'spec')
        args = ['java', '-Xss' + xss, '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + meta]
        if heap:
            args.append('-Xmx' + heap)
        args += ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
                 '-config', (cfg or module) + '.cfg', module + '.tla']
        try:
            r = subprocess.run(args, cwd=spec, env=env, capture_output=True, encoding='utf-8', errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s: no end after %d s' % (cfg or module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.stdout

    def count(self, out):
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        if not m:
            return 0, 0
        return int(m[-1][0]), int(m[-1][1])

    def model(self, module, cfg=None, timeout=400, note='', **kw):
        """Checks a specification exhaustively in the bounds of its configuration."""
        out = self.tlc(module, cfg, timeout=timeout, **kw)
        gen, dist = self.count(out)
        if 'Model checking completed. No error has been found.' not in out:
            raise CheckError('TLC on %s: %s' % (cfg or module, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.stages.append({'model': cfg or module, 'distinct_states': dist, 'states_generated': gen, 'exhaustive': True, 'note': note})
        return out

    def validate(self, module, trace_file, label, replay, confirm=None, describe=None, cfg=None, timeout=500, count=True):
        """Has TLC check the traces of a file.  Returns the number of traces consumed."""
        lines = [x for x in open(trace_file) if x.strip()]
        if not lines:
            raise CheckError(label + ': no traces')
        dropped = 0
        while True:
            out = self.tlc(module, cfg, trace=trace_file, timeout=timeout)
            gen, dist = self.count(out)
            if 'Model checking completed. No error has been found.' in out:
                break
            m = re.search(r'^/\\ n = (\d+)', out, re.M) or re.search(r'trace (\d+)', out)
            if not m or dropped >= 12:
                raise CheckError('%s: TLC: %s' % (label, out[-3000:]))
            n = int(m.group(1))
            self.notes.append('%s: TLC could not evaluate trace %s, left out' % (label, json.loads(lines[n - 1]).get('n')))
            if os.environ.get('VERIF_DEBUG'):
                print(out[-3000:])
            del lines[n - 1]
            dropped += 1
            with open(trace_file, 'w') as f:
                f.writelines(lines)
        self.transitions += gen
        self.states += dist
        if count:
            self.traces += len(lines)
        rejects = []
        for m in re.finditer(r'^<<"REJECT", (\d+), (-?\d+), (.*)>>$', out, re.M):
            rejects.append((int(m.group(1)), int(m.group(2)), m.group(3)))
        listed = known_findings(self.prop)
        for m in re.finditer(r'^<<"KNOWN", (\d+), (-?\d+), "(.*)">>$', out, re.M):
            n, l, key = int(m.group(1)), int(m.group(2)), m.group(3)
            if key not in listed:
                rejects.append((n, l, '"a finding which is not listed: %s"' % key))
            elif key not in self.known:
                self.known.append(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, listed[key]), flush=True)
        self.stages.append({'traces': label, 'spec': module, 'count': len(lines), 'distinct_states': dist, 'rejected': len(rejects)})
        if len(self.samples) < 4:
            t = json.loads(lines[min(len(lines) - 1, 7)])
            self.samples.append({'traces': label, 'trace': clip(t)})
        for n, l, exp in rejects[:20]:
            t = json.loads(lines[n - 1])
            if confirm and not confirm(t, l, exp):
                self.notes.append('%s: trace %s was not rejected when it ran again' % (label, t.get('n')))
                continue
            self.violation(label, dict(replay, trace=t, event=l, expected=exp), describe)
            if len(self.violations) >= 3:
                break
        return len(lines)

    def violation(self, label, what, describe=None):
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        what = dict(what, property=self.prop, stage=label, tier=self.tier, seed=self.seed)
        with open(p, 'w') as f:
            json.dump(what, f, indent=1)
        self.violations.append(p)
        print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)

    # -- the end ---------------------------------------------------------------------------------------------------
    def finish(self, assumptions=None):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples or [{'none': True}], 'stages': self.stages}
        if self.notes:
            cov['notes'] = self.notes
        if self.known:
            cov['known_findings'] = self.known
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        if assumptions:
            ev['assumptions'] = assumptions
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s seed=%d: %d traces, %d states, %.0f s, %d violations' % (
            self.prop, self.tier, self.seed, self.traces, self.states, time.time() - self.t0, len(self.violations)))
        for n in self.notes:
            print('note:', n[:300])
        return 1 if self.violations else 0

    def clean(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def clip(v, depth=0):
    """A readable part of a trace."""
    if isinstance(v, dict):
        if depth > 7:
            return '...'
        return {k: clip(x, depth + 1) for k, x in list(v.items())[:30]}
    if isinstance(v, list):
        if depth > 7:
            return '...'
        return [clip(x, depth + 1) for x in v[:5]] + (['... %d more' % (len(v) - 5)] if len(v) > 5 else [])
    if isinstance(v, str) and len(v) > 600:
        return v[:600] + '...'
    return v
