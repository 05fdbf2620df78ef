#!/usr/bin/python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's working tree.

Runs the explorations registered for the property in lib/registry.py, confirms
every violation by replaying exactly the reported case alone, rewrites
evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1: a line
VIOLATION property=<ID> replay=<path>."""
import json, os, re, subprocess, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
from concurrent.futures import ThreadPoolExecutor
import build
import registry

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:quarantine_size_mb=8',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=66', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', HOME='/root' if os.path.isdir('/root') else '/tmp')


def tail(s, n=6000):
    return s if len(s) <= n else s[:n//2] + '\n...\n' + s[-n//2:]


class Run:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed

    def prepare(self):
        k = self.spec
        if k['kind'] == 'cpp':
            self.cmd = list(k.get('wrap', ())) + [build.harness(k['src'], k.get('variant', 'std'), k.get('flags', ()))]
        else:
            self.cmd = ['/usr/bin/python3', os.path.join(HERE, 'harness', k['src'])]
            self.env = dict(ENV, GINV_REPO=build.REPO)
            if k.get('module'):
                self.env['GINV_MODULE'] = build.python_module()
        self.name = k['src'].rsplit('.', 1)[0] + (':' + k['tag'] if 'tag' in k else '') + ('' if k.get('variant', 'std') == 'std' else ':' + k['variant'])

    def environ(self):
        return getattr(self, 'env', ENV)

    def explore(self, budget):
        k = self.spec
        out = os.path.join(build.BUILD, 'out-%s-%d-%s.json' % (self.pid, os.getpid(), re.sub(r'\W', '_', self.name)))
        cmd = self.cmd + ['--tier', self.tier, '--workers', str(k.get('workers', min(16, os.cpu_count() or 8))), '--budget', str(budget),
                          '--case-s', str(k.get('case_s', 60)), '--out', out] + list(k.get('args', ()))
        for p in k.get('parts', ()):
            cmd += ['--part', p]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=self.environ())
        self.log = r.stdout
        if os.path.exists(out):
            res = json.load(open(out))
            os.unlink(out)
        else:
            res = None
        if r.returncode not in (0, 1) or res is None:
            raise RuntimeError('the explorer failed (status %d)\n%s' % (r.returncode, tail(r.stdout)))
        return res

    def replay(self, part, choices, limit):
        cmd = self.cmd + ['--tier', self.tier, '--replay', part, ','.join(map(str, choices))]
        cmd += list(self.spec.get('args', ()))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=self.environ(), timeout=limit)
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b''
            return 'hang', (o.decode(errors='replace') if isinstance(o, bytes) else o) + '\n(no end within %d s)' % limit, cmd
        if r.returncode == 0 and 'case passed' in r.stdout:
            return 'pass', r.stdout, cmd
        if r.returncode == 1 and 'VIOLATED' in r.stdout:
            return 'fail', r.stdout, cmd
        if 'HARNESS-ERROR' in r.stdout:
            return 'error', r.stdout, cmd
        return 'died', r.stdout + '\n(status %d)' % r.returncode, cmd


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x.get('status') == 'known']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    reg = registry.CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(build.BUILD, exist_ok=True)
    known = [k for k in known_findings() if k['property'] == pid]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, parts=[], counters={},
               distinct_observed_outcomes=0)
    unconfirmed, violations, knownhits = [], [], {}
    runs = [r for r in reg['runs'](tier) if not only or only in r['src'] + ':' + r.get('variant', 'std')]
    total_budget = reg.get('budget', {}).get(tier, 500 if tier == 'quick' else 3000)
    try:
        objs = [Run(pid, s, tier, seed) for s in runs]
        with ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(lambda o: o.prepare(), objs))
    except build.BuildError as e:
        # the tree does not compile: no verdict is possible
        print('BUILD-ERROR', e)
        sys.exit(3)
    # several small explorations at a time, or one after another with all cores
    jobs = reg.get('jobs', 1)
    ex = ThreadPoolExecutor(max_workers=jobs)
    pending = [ex.submit(lambda o=o: o.explore(max(20, total_budget - (time.time() - t0)))) for o in objs]
    for o, f in zip(objs, pending):
        res = f.result()
        print(o.log.strip())
        for p in res['parts']:
            cov['states'] += p['states']
            cov['transitions'] += p['transitions']
            cov['traces_validated_against_impl'] += p['executions']
            cov['exhaustive'] = cov['exhaustive'] and p['complete']
            cov['parts'].append(dict(p, run=o.name))
        cov['distinct_observed_outcomes'] += res['distinct_outcomes']
        for k, v in res['counters'].items():
            cov['counters'][k] = cov['counters'].get(k, 0) + v
        for s in res['samples'][:2] if len(cov['samples']) < 8 else []:
            st, txt, _ = o.replay(s['part'], s['choices'], 120)
            cov['samples'].append(dict(run=o.name, part=s['part'], choices=s['choices'][:80], case=txt.strip().splitlines()[:25], result=st))
        for v in res['violations'][:6]:
            case_s = o.spec.get('case_s', 60)
            st = txt = cmd = None
            for _ in range(3):
                st, txt, cmd = o.replay(v['part'], v['choices'], 2*case_s + 30)
                if st in ('fail', 'died', 'hang'):
                    break
            if st not in ('fail', 'died', 'hang'):
                # it may need the cases before it in the same process: run the part again
                rr = Run(pid, dict(o.spec, parts=[v['part']]), tier, seed)
                rr.cmd, rr.name = o.cmd, o.name + '-again'
                if hasattr(o, 'env'):
                    rr.env = o.env
                again = rr.explore(200)
                if again['violations']:
                    st, txt = 'again', 'seen in two runs of the part:\n' + v['what'] + '\n' + again['violations'][0]['what']
            if st not in ('fail', 'died', 'hang', 'again'):
                unconfirmed.append(dict(part=v['part'], what=v['what'], choices=v['choices']))
                print('unconfirmed: %s %s %s' % (v['part'], v['choices'], v['what']))
                continue
            hit = None
            for k in known:
                if k.get('run', o.name) == o.name and k['part'] == v['part'] and (list(k['choices']) == list(v['choices']) if 'choices' in k else re.search(k['match'], v['what'])):
                    hit = k
            if hit:
                knownhits[hit['id']] = hit
                continue
            violations.append((o, v, st, txt, cmd))
        if violations:
            for f in pending:
                f.cancel()
            break
    ex.shutdown()
    # Known findings: reported by the harness through counters named known:<id>
    for k in known:
        if k['id'] in knownhits or cov['counters'].get('known:' + k['id']):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rc = 0
    for i, (o, v, st, txt, cmd) in enumerate(violations[:3]):
        path = os.path.join('evidence', 'replay-%s-%d.txt' % (pid, i))
        with open(os.path.join(HERE, path), 'w') as f:
            f.write('property %s\nrun %s part %s\nchoices %s\nwhat: %s\nreplay (%s): %s\n%s\n' %
                    (pid, o.name, v['part'], v['choices'], v['what'], st, ' '.join(map(str, cmd)), tail(txt, 20000)))
        print('violated: %s / %s: %s' % (o.name, v['part'], v['what']))
        print(tail(txt, 2500))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=reg.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if unconfirmed:
        ev['coverage']['unconfirmed'] = unconfirmed
    cov['bounds'] = reg.get('bounds', '')
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d states, %d transitions, %d executions of the real code, exhaustive=%s, %.1f s' %
          (pid, 'VIOLATED' if rc else 'held', cov['states'], cov['transitions'], cov['traces_validated_against_impl'], cov['exhaustive'], time.time() - t0))
    sys.exit(rc)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
