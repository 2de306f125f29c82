"""Runner library: TLC, the PyPy drivers, and verdicts.

Every check is the same pipeline:
  1. model   : TLC explores the specification itself (design level).
  2. generate: TLC enumerates scenarios from the specification (JSON).
  3. drive   : a driver replays them in the real code under /repo (PyPy) and
               records what happened, one JSON record per scenario.
  4. validate: TLC decides, with the specification, whether every record is a
               behaviour it allows, naming the clause that fails.
Only exit 0, or exit 1 with a VIOLATION line, are outcomes of a check.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
PYPY = '/opt/venv/bin/python'
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
NCPU = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    """The check itself failed (never the code under test)."""


class Ctx(object):
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.bad = []          # (record, [clauses])
        self._n = 0

    @property
    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        self._n += 1
        return os.path.join(self.tmp, '%03d-%s' % (self._n, name))

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, args=(), timeout=800, workers=1,
             heap='2g'):
        """Run TLC in a private copy of the specification directory."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgp = os.path.join(d, 'run.cfg')
        with open(cfgp, 'w') as fh:
            fh.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC'
               if workers == 1 else '-XX:+UseParallelGC',
               '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC',
               '-config', cfgp, '-metadir', os.path.join(d, 'md'),
               '-workers', str(workers), '-noGenerateSpecTE',
               '-deadlock'] + list(args) + [os.path.join(d, module + '.tla')]
        out = os.path.join(d, 'out.txt')
        with open(out, 'wb') as fh:
            p = subprocess.Popen(cmd, cwd=d, stdout=fh,
                                 stderr=subprocess.STDOUT, env=e,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -99
        with open(out, 'r', errors='replace') as fh:
            text = fh.read()
        shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
        return rc, text

    def model(self, module, cfg, args=(), workers=4, timeout=600, expect=None,
              heap='4g', env=None):
        """Explore the specification; its invariants must hold.

        With expect=<invariant name> the run uses a deliberately weakened
        design and that invariant MUST fail (non-vacuity of the property)."""
        rc, text = self._tlc(module, cfg, args=args, workers=workers,
                             timeout=timeout, heap=heap, env=env)
        if expect:
            if rc == 0 or not any('%s %s violated' % (expect, w) in text
                                  for w in ('is', 'was')):
                raise Machinery('weakened design %s: %s was not violated\n%s'
                                % (module, expect, text[-3000:]))
            self.add('weakened_designs_refuted')
            return text
        if rc != 0:
            raise Machinery('TLC on %s: rc=%s\n%s' % (module, rc,
                                                      text[-4000:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found',
                       text)
        if not m:
            raise Machinery('no state count from %s\n%s' % (module,
                                                            text[-2000:]))
        self.add('transitions', int(m[-1][0]))
        self.add('states', int(m[-1][1]))
        return text

    def generate(self, module, cfg, env=None, args=(), timeout=600, workers=1,
                 heap='4g'):
        """TLC enumerates scenarios; GEN lines carry JSON."""
        out = self.path('gen.ndjson')
        e = dict(env or {})
        e['GEN_OUT'] = out
        rc, text = self._tlc(module, cfg, env=e, args=args, timeout=timeout,
                             workers=workers, heap=heap)
        if rc != 0:
            raise Machinery('generator %s rc=%s\n%s' % (module, rc,
                                                        text[-4000:]))
        res = []
        if os.path.exists(out):
            with open(out) as fh:
                for line in fh:
                    line = line.strip()
                    if line:
                        res.append(json.loads(line))
        for line in text.splitlines():
            if line.startswith('"GEN '):
                res.append(json.loads(json.loads(line)[4:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found',
                       text)
        if m and int(m[-1][1]) > 1:
            self.add('transitions', int(m[-1][0]))
            self.add('states', int(m[-1][1]))
        if not res:
            raise Machinery('generator %s produced nothing\n%s'
                            % (module, text[-3000:]))
        self.add('scenarios_generated', len(res))
        return res

    # --------------------------------------------------------------- drivers
    def drive(self, driver, scenarios, shards=None, timeout=600, env=None,
              args=()):
        """Replay the scenarios in the real code; one record each."""
        for n, s in enumerate(scenarios):
            s.setdefault('n', n)
        shards = min(shards or NCPU, max(1, len(scenarios)))
        parts = [scenarios[k::shards] for k in range(shards)]
        stall = min(timeout, self.pick(180, 400))
        e = dict(os.environ)
        e.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
                  'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'VERIF_REPO': REPO,
                  'VERIF_SEED': str(self.seed), 'VERIF_TIER': self.tier,
                  'PYTHONPATH': HARNESS + os.pathsep + REPO})
        e.update(env or {})

        def one(k):
            inp, outp = self.path('sc%d.ndjson' % k), self.path('rec%d' % k)
            scratch = self.path('scratch%d' % k)
            os.mkdir(scratch)
            with open(inp, 'w') as fh:
                for s in parts[k]:
                    fh.write(json.dumps(s) + '\n')
            ee = dict(e)
            ee.update({'HOME': scratch, 'TMPDIR': scratch,
                       'VF_SCRATCH': scratch})
            p = subprocess.Popen(
                [PYPY, '-W', 'ignore', os.path.join(HARNESS, driver + '.py'),
                 inp, outp] + list(args), cwd=scratch, env=ee,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                start_new_session=True)
            # Code that does not even react to signals (a regular expression
            # that explodes) is recognised by records no longer arriving
            begun, seen, log, rc = time.time(), (time.time(), 0), None, None
            while log is None:
                try:
                    log, _ = p.communicate(timeout=5)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    size = os.path.getsize(outp) if os.path.exists(outp) else 0
                    now = time.time()
                    if size != seen[1]:
                        seen = (now, size)
                    if now - begun > timeout or now - seen[0] > stall:
                        os.killpg(p.pid, signal.SIGKILL)
                        log, _ = p.communicate()
                        rc = -99
            recs = []
            if os.path.exists(outp):
                with open(outp) as fh:
                    for line in fh:
                        try:
                            recs.append(json.loads(line))
                        except ValueError:
                            pass
            done = {r['n'] for r in recs}
            missing = [s for s in parts[k] if s['n'] not in done]
            if rc != 0 or missing:
                txt = log.decode('utf8', 'replace')
                if 'VF-MACHINERY' in txt:
                    raise Machinery('driver %s: %s' % (driver, txt[-3000:]))
                first = missing[0] if missing else {'n': -1}
                self.bad.append((
                    {'scenario': first, 'driver_rc': rc,
                     'log': txt[-2000:]},
                    ['the code under test ended the driver (rc=%s)' % rc]))
            return recs

        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        recs = sorted((r for rs in res for r in rs), key=lambda r: r['n'])
        return recs

    # -------------------------------------------------------------- validate
    def validate(self, module, records, cfg=None, shards=None, timeout=800,
                 env=None, key='key', heap='3g', min_per_shard=40):
        """TLC decides whether each record is allowed by the specification."""
        if not records:
            if not self.bad:
                raise Machinery('nothing to validate for ' + module)
            return []
        if cfg is None:
            cfg = 'INIT TInit\nNEXT TNext\n'
        shards = min(shards or NCPU,
                     max(1, (len(records) + min_per_shard - 1)
                         // min_per_shard))
        parts = [records[k::shards] for k in range(shards)]

        def run(part):
            tr = self.path('trace.ndjson')
            with open(tr, 'w') as fh:
                for r in part:
                    fh.write(json.dumps(r) + '\n')
            e = {'TRACE': tr}
            e.update(env or {})
            return self._tlc(module, cfg, env=e, timeout=timeout, heap=heap)

        def one(part):
            rc, text = run(part)
            bad = []
            if rc == 0 and ('<<"DONE", %d>>' % len(part)) in text:
                # TLC wraps long values over several lines
                found = re.findall(r'^<<\s*"BAD",\s*(\d+),\s*(\{.*?\})\s*>>$',
                                   text, re.S | re.M)
                if len(found) != text.count('"BAD"'):
                    raise Machinery('unreadable verdicts of ' + module)
                for m in re.finditer(r'^<<\s*"BAD",\s*(\d+),\s*(\{.*?\})'
                                     r'\s*>>$', text, re.S | re.M):
                    cl = re.findall(r'"([^"]*)"', m.group(2))
                    bad.append((part[int(m.group(1)) - 1], cl))
                return bad, len(part)
            if rc == -99:
                raise Machinery('TLC timed out validating %s' % module)
            if 'Could not find or load' in text or 'OutOfMemory' in text:
                raise Machinery(text[-2000:])
            # The specification could not even interpret the record: find it.
            if len(part) == 1:
                return [(part[0],
                         ['not explainable: ' + _tlcerr(text)])], 0
            h = len(part) // 2
            b1, n1 = one(part[:h])
            b2, n2 = one(part[h:])
            return b1 + b2, n1 + n2

        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, parts))
        allbad = [b for r in res for b in r[0]]
        n = sum(r[1] for r in res)
        self.add('traces_validated_against_impl', n)
        self.bad.extend(allbad)
        if len(self.cov['samples']) < 3:
            for r in records[:1] + records[len(records) // 2:][:1]:
                self.cov['samples'].append(_trim(r))
        return allbad

    def kinds(self, records, field):
        """Count records per spec action / outcome (non-vacuity)."""
        d = self.cov.setdefault('per_action', {})
        for r in records:
            v = str(r.get(field))
            d[v] = d.get(v, 0) + 1

    def require(self, cond, msg):
        if not cond:
            raise Machinery('vacuous check: ' + msg)

    # --------------------------------------------------------------- verdict
    def finish(self):
        kf = load_known(self.prop)
        known, viol = [], []
        for rec, clauses in self.bad:
            k = match_known(kf, rec, clauses)
            if k is not None:
                known.append(k)
            else:
                viol.append((rec, clauses))
        for k in sorted({k['id'] for k in known}):
            what = [x for x in kf if x['id'] == k][0]['what']
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        replay = None
        if viol:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, '%s.json' % self.prop)
            with open(replay, 'w') as fh:
                json.dump({'property': self.prop, 'tier': self.tier,
                           'seed': self.seed,
                           'violations': [{'clauses': c, 'record': r}
                                          for r, c in viol[:50]]},
                          fh, indent=1)
            shown = set()
            for r, c in viol:
                t = '; '.join(c)[:200]
                if t not in shown and len(shown) < 8:
                    shown.add(t)
                    print('  failing clause: %s   [%s]' % (
                        t, str(r.get('key', r.get('n', '')))[:160]))
        self.cov['known_findings_seen'] = len({k['id'] for k in known})
        self.write_evidence(len(viol))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        print('OK property=%s tier=%s traces=%d states=%d wall=%.1fs' % (
            self.prop, self.tier, self.cov['traces_validated_against_impl'],
            self.cov['states'], time.time() - self.t0))
        return 0

    def write_evidence(self, nviol):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as fh:
            json.dump({'property': self.prop, 'tier': self.tier,
                       'seed': self.seed, 'level': self.level,
                       'coverage': self.cov, 'assumptions': self.assumptions,
                       'wall_s': round(time.time() - self.t0, 2),
                       'violations': nviol}, fh, indent=1)


def _tlcerr(text):
    for line in text.splitlines():
        if line.startswith('Error:') and 'TLC threw' not in line:
            return line[:200]
    i = text.find('Error:')
    return ' '.join(text[i:i + 400].split())[:300]


def _trim(r, n=400):
    s = json.dumps(r)
    return r if len(s) <= n else s[:n] + '...'


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('{'):
                    k = json.loads(line)
                    if k['property'] == prop and k.get('status') == 'known':
                        res.append(k)
    return res


def match_known(kf, rec, clauses):
    """A finding is identified by the exact scenario key and failing clauses."""
    for k in kf:
        if rec.get('key') in k['keys'] and set(clauses) <= set(k['clauses']):
            return k
    return None


def main(prop, run):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    ctx = Ctx(prop, tier, a.seed)
    try:
        run(ctx)
        rc = ctx.finish()
    except Machinery as e:
        sys.stderr.write('MACHINERY FAILURE property=%s: %s\n' % (prop, e))
        rc = 1 if ctx.bad and ctx.finish() == 1 else 2
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.exit(rc)
