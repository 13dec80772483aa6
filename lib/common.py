"""What all checks share: building the harness, running it, running TLC, reporting."""
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
DATA = os.path.join(SPEC, 'data')
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(VERIF, 'target')
OUT = os.path.join(VERIF, 'out')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.text = text
        self.replay = replay


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p, encoding='utf-8')) if os.path.exists(p) else {'findings': [], 'fixed': []}


# environment variables of users in different places: the library must not care
SURROUNDINGS = [{}, {'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'tr_TR.UTF-8', 'LANGUAGE': 'tr', 'TZ': 'Asia/Istanbul'}, {'LANG': 'C', 'LC_ALL': 'C', 'TZ': 'UTC'}, {'LANG': 'ja_JP.UTF-8', 'LC_ALL': 'ja_JP.UTF-8', 'TZ': 'Asia/Tokyo', 'RUST_BACKTRACE': '1'},
                {'LANG': 'de_DE.UTF-8', 'LC_NUMERIC': 'de_DE.UTF-8', 'LC_CTYPE': 'de_DE.ISO-8859-1', 'DEBUG': '1', 'RUST_LOG': 'debug', 'SOURCE_DATE_EPOCH': '0'}, {'LANG': 'ar_EG.UTF-8', 'LC_ALL': 'ar_EG.UTF-8', 'COLUMNS': '20', 'CI': 'true', 'NO_COLOR': '1'},
                {'LANG': 'zh_CN.GB18030', 'LC_COLLATE': 'zh_CN.UTF-8', 'HOME': '/nonexistent', 'TMPDIR': '/nonexistent', 'USER': 'nobody'}, {'LANG': '', 'LC_ALL': '', 'TERM': 'dumb', 'TESTING': '1', 'RUST_TEST_THREADS': '1'}]


LANGUAGES = 'ar da du fi fr de hu it ko no pt ro ru es sv tr'.split()


class Check:
    def __init__(self, pid, thorough, seed):
        self.pid, self.thorough, self.seed = pid, thorough, seed
        self.rng = random.Random('%s:%d' % (pid, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.known = {}
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.seq = 0
        self.runs = 0
        self.plain = {}

    # ---------------------------------------------------------------- plumbing
    stopped, blips, said = False, 0, ''

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        self.seq += 1
        return os.path.join(self.tmp, '%03d-%s' % (self.seq, name))

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- building
    def build(self, features=None, target=None, repo_features=None, alike=False):
        """Builds the harness from /repo's working tree; returns the binary."""
        t = target or TARGET
        cmd = ['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(HARNESS, 'Cargo.toml'), '--target-dir', t]
        fs = ([features] if features else []) + ['elasticlunr-rs/' + f for f in repo_features or []]
        if fs:
            cmd += ['--features', ','.join(fs)]
        env = dict(os.environ)
        env.pop('RUSTFLAGS', None)
        def build(more):
            r = subprocess.run(cmd + more, capture_output=True, text=True, env=env, timeout=800)
            if r.returncode != 0:
                raise ToolError('the harness does not build:\n' + r.stderr[-3000:])
            out = self.path('harness')
            shutil.copy2(os.path.join(t, 'debug', 'harness'), out)
            return out
        out = build([])
        if not repo_features:
            # as users have it in production, and with languages; the dependencies stay as they are
            more = [] if features or alike else ['--features', ','.join('elasticlunr-rs/' + x for x in LANGUAGES)]
            self.plain[out] = build(more + [x for k in ('debug-assertions', 'overflow-checks') for x in ('--config', 'profile.dev.package.elasticlunr-rs.%s=false' % k)])
        self.log('built harness', features or '', ' '.join(repo_features or []))
        return out

    # ---------------------------------------------------------------- harness
    def _run_once(self, binary, scs, timeout, surroundings=None):
        """With the environment variables of another user, in a directory of its own."""
        s = surroundings or {}
        env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG'))}
        env.update(s)
        i, o = self.path('in.json'), self.path('out.json')
        with open(i, 'w', encoding='utf-8') as f:
            json.dump(scs, f, ensure_ascii=False)
        at = o + '.at'
        # hangs if it does not get on to another scenario
        with open(o + '.err', 'w+', encoding='utf-8', errors='replace') as err:
            p = subprocess.Popen([binary, i, o], stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=self.tmp)
            last, since = None, time.time()
            while True:
                try:
                    p.wait(.05 if time.time() - since < 1 else .5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                n = os.path.getmtime(at) if os.path.exists(at) else None
                if n != last:
                    last, since = n, time.time()
                if time.time() - since > timeout or self.stopped:
                    p.kill()
                    p.wait()
                    break
            err.seek(0)
            text = err.read()[-2000:]
        where = int(open(at).read() or 0) if os.path.exists(at) else 0
        if p.returncode == -9 and (time.time() - since > timeout or self.stopped):
            return 'hang', where
        if p.returncode == 3:
            raise ToolError('harness: ' + text)
        if p.returncode != 0:
            self.said = text[-500:]
            return 'abort', where
        with open(o, encoding='utf-8') as f:
            return 'ok', json.load(f)

    def _run_chunk(self, binary, scs, timeout, surroundings=None):
        if self.stopped or not scs:
            return []
        k, v = self._run_once(binary, scs, timeout, surroundings)
        if k == 'ok':
            return v
        if self.stopped:
            return []
        # by itself, where nothing else is to blame
        s = scs[v]
        k2, v2 = self._run_once(binary, [s], timeout, surroundings)
        if k2 == 'ok' and v:
            # it takes the others before it
            k2, v2 = self._run_once(binary, scs[:v + 1], timeout * 2, surroundings)
        if k2 != 'ok':
            self.stopped = True
            self.fail('the process %s in scenario %s' % ({'hang': 'does not get on', 'abort': 'aborts'}[k2], s['id']), script=s, seen=self.said)
        # the system or its load was to blame
        self.blips += 1
        if self.blips > 20:
            raise ToolError('the harness ends again and again, but not when run again')
        return self._run_chunk(binary, scs, timeout * 2, surroundings)

    def run(self, binary, scs, jobs=CPUS, timeout=None):
        """Runs scripts on the library; an abort or a hang is a violation of whatever is checked."""
        timeout = timeout or self.pick(100, 900)
        if not scs:
            return []
        n = min(jobs, len(scs))
        t0 = time.time()
        chunks = [scs[k::n] for k in range(n)]
        # some with, some without debug assertions and overflow checks
        plain = [binary in self.plain and (k ^ k >> 1 ^ self.runs) & 1 == 0 for k in range(n)]
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda k: self._run_chunk(self.plain[binary] if plain[k] else binary, chunks[k], timeout, SURROUNDINGS[(k + self.runs) % len(SURROUNDINGS)]), range(n)))
        for k, chunk in enumerate(chunks):
            for s in chunk:
                s['surroundings'] = SURROUNDINGS[(k + self.runs) % len(SURROUNDINGS)]
                s['debug assertions'] = not plain[k]
        self.runs += 1
        out = [None] * len(scs)
        for k, r in enumerate(res):
            out[k::n] = r
        if os.environ.get('VERIF_TIMES'):
            self.log('ran %d scripts in %.1f s' % (len(scs), time.time() - t0))
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=CPUS, timeout=600, heap='12g', extra=()):
        meta, c = self.path('meta'), self.path(module + '.cfg')
        with open(c, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update({'SPECDATA': DATA})
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-Dstderr.encoding=UTF-8', '-Xmx' + heap, '-Xss512m', '-Djava.io.tmpdir=' + os.path.dirname(meta), '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', c, *extra, os.path.join(SPEC, module + '.tla')]
        log = self.path(module + '.log')
        with open(log, 'w') as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, env=e, timeout=timeout * self.pick(1, 4))
            except subprocess.TimeoutExpired:
                raise ToolError('TLC on %s took more than %d s' % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        return Tlc(p.returncode, open(log, encoding='utf-8', errors='replace').read(), module)

    def model(self, name, module, cfg, env=None, expect_tests=False, min_states=2, **kw):
        """Model checks a design specification. It says nothing about the code: an error here is an
        error of the specification. Returns the tests that the model printed."""
        r = self.tlc(module, cfg, env, **kw)
        if not r.ok:
            raise ToolError('the specification %s fails:\n%s' % (module, '\n'.join(x for x in r.text.splitlines() if not x.startswith(('"@', 'Parsing ', 'Semantic proc')))[-4000:]))
        if r.distinct < min_states:
            raise ToolError('model %s is vacuous: %d states' % (name, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts['model ' + name] = {'distinct_states': r.distinct, 'transitions': r.generated, 'depth': r.depth}
        tests = r.lines('@T ')
        if expect_tests and not tests:
            raise ToolError('model %s emitted no tests' % name)
        self.log('model %s: %d states, %d transitions, %d tests' % (name, r.distinct, r.generated, len(tests)))
        return tests

    def validate(self, name, module, outs, scripts, cfg=None, chunk=None, env=None, **kw):
        """Checks recorded traces against a trace specification; raises Violation."""
        if not outs:
            return
        cfg = cfg or 'SPECIFICATION Spec\n'
        by_id = {s['id']: s for s in scripts}
        chunk = chunk or len(outs)
        for a in range(0, len(outs), chunk):
            part = outs[a:a + chunk]
            t = self.path('trace.json')
            with open(t, 'w', encoding='utf-8') as f:
                json.dump(part, f, ensure_ascii=False)
            r = self.tlc(module, cfg, dict(env or {}, TRACE=t, PROP=self.pid), **kw)
            if r.overflow:
                self.log('TLC ran out of stack; again with one worker')
                r = self.tlc(module, cfg, dict(env or {}, TRACE=t, PROP=self.pid), **dict(kw, workers=1))
            for k in r.lines('@K '):
                self.known.setdefault(k['id'], set()).add(json.dumps(k['what'], ensure_ascii=False))
            want = sum(len(o['events']) + 1 for o in part)
            if r.ok:
                if r.distinct != want:
                    raise ToolError('%s explored %d states for traces of %d' % (module, r.distinct, want))
                os.remove(t)
                self.states += r.distinct
                self.transitions += r.generated
                self.traces += len(part)
                continue
            if r.tool_failure:
                raise ToolError('TLC fails on %s:\n%s' % (module, r.text[-3000:]))
            tid, l = r.position()
            why = r.lines('@X ')
            if tid is None and why:
                ids = [o['id'] for o in part]
                tid, l = ids.index(why[-1]['id']) + 1, why[-1]['at']
            o = part[(tid or 1) - 1]
            ev = o['events'][l - 1] if l and l <= len(o['events']) else None
            mine = [x for x in why if x['id'] == o['id']] or why
            self.fail('%s: event %s of scenario %s is not allowed by the specification%s' % (
                name, l, o['id'], '; ' + '; '.join(x['what'] for x in mine[:3]) if mine else ''),
                script=by_id.get(o['id']), at=l, event=ev, why=mine[:5], tlc=r.error_text())
        n = self.parts.setdefault('traces ' + name, {'scenarios': 0, 'events': 0})
        n['scenarios'] += len(outs)
        n['events'] += sum(len(o['events']) for o in outs)
        self.log('traces %s: %d scenarios, %d events accepted' % (name, len(outs), sum(len(o['events']) for o in outs)))

    # ---------------------------------------------------------------- results
    def sample(self, x):
        if len(self.samples) < 6:
            t = json.dumps(x, ensure_ascii=False)
            self.samples.append(x if len(t) < 1500 else t[:1500] + '...')

    def count_tests(self, name, n):
        self.traces += n
        p = self.parts.setdefault('tests ' + name, {'transitions_replayed': 0})
        p['transitions_replayed'] += n

    def fail(self, text, **detail):
        os.makedirs(OUT, exist_ok=True)
        p = os.path.join(OUT, 'replay-%s-%d.json' % (self.pid, os.getpid()))
        detail['property'] = self.pid
        detail['text'] = text
        with open(p, 'w', encoding='utf-8') as f:
            json.dump(detail, f, ensure_ascii=False, indent=1, default=str)
        raise Violation(text, p)

    def require(self, cond, text, **detail):
        if not cond:
            self.fail(text, **detail)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.pid, 'tier': 'thorough' if self.thorough else 'quick', 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {'states': self.states, 'transitions': self.transitions,
                         'traces_validated_against_impl': self.traces, 'samples': self.samples, 'parts': self.parts},
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': violations,
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)


class Tlc:
    def __init__(self, rc, text, module):
        self.rc, self.text, self.module = rc, text, module
        self.ok = rc == 0 and 'Model checking completed. No error has been found.' in text
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        d = re.findall(r'depth of the complete state graph search is (\d+)', text)
        self.depth = int(d[-1]) if d else 0
        bad = ['OutOfMemoryError', 'Parsing or semantic analysis failed', 'Unable to access jarfile',
               'Could not parse', 'No space left', 'Error: Could not']
        started = 'Finished computing initial states' in text or 'Computing initial states' in text
        self.overflow = not self.ok and 'StackOverflowError' in text
        self.tool_failure = not self.ok and (self.overflow or any(b in text for b in bad) or not started)

    def lines(self, tag):
        out = []
        for x in self.text.splitlines():
            if x.startswith('"' + tag):
                try:
                    out.append(json.loads(json.loads(x)[len(tag):]))
                except ValueError:
                    out.append({'id': '?', 'at': 0, 'what': x[:400]})
        return out

    def position(self):
        a = re.findall(r'^/\\ tid = (\d+)', self.text, re.M)
        b = re.findall(r'^/\\ l = (\d+)', self.text, re.M)
        return (int(a[-1]), int(b[-1])) if a and b else (None, None)

    def error_text(self):
        i = self.text.find('Error:')
        return self.text[i:i + 1500] if i >= 0 else ''


def main(checks):
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rc = 0
    if '--setup' in sys.argv:
        return setup()
    for pid in a:
        c = Check(pid, thorough, seed)
        try:
            checks[pid](c)
            unlisted = report_known(c)
            if unlisted:
                c.fail('not a listed finding: %s' % unlisted, finding=unlisted)
            c.evidence(0)
            c.log('held')
        except Violation as v:
            c.evidence(1)
            print('%s: %s' % (pid, v.text))
            print('VIOLATION property=%s replay=%s' % (pid, v.replay), flush=True)
            rc = max(rc, 1)
        except (ToolError, subprocess.TimeoutExpired) as e:
            print('error of the check %s: %s' % (pid, e), flush=True)
            rc = 2
        finally:
            if '--keep' not in sys.argv:
                c.cleanup()
    return rc


def report_known(c):
    """Prints the findings that were seen and are listed; returns those that are not."""
    listed = {f['id']: f for f in known_findings()['findings'] if f['property'] == c.pid}
    for k in sorted(c.known):
        if k in listed:
            print('KNOWN-FINDING: property=%s %s' % (c.pid, listed[k]['what']))
    return [k for k in c.known if k not in listed]


def setup():
    """Shows that the harness builds and the specifications parse; the checks build by themselves."""
    c = Check('setup', False, 1)
    try:
        c.build()
        for m in sorted(x[:-4] for x in os.listdir(SPEC) if x.endswith('.tla')):
            r = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', m + '.tla'], capture_output=True, text=True, cwd=SPEC, timeout=120)
            if r.returncode != 0:
                raise ToolError('%s does not parse:\n%s' % (m, r.stdout[-2000:]))
        c.log('set up')
    finally:
        c.cleanup()
    return 0
