"""Bounded-exhaustive explorer for Python code (the same idea, command line and
report as harness/mc.hpp): a case is a function which asks for choices; every
vector of choices is executed, in forked workers, so that a crash or an endless
loop of the code under test is attributed to the vector which caused it.
A bfs part explores operation histories breadth-first, deduplicated by state."""
import json, mmap, os, pickle, signal, struct, sys, tempfile, time, traceback, zlib

MAXC = 400
SLOT = 64 + 8*MAXC          # busy/start/len/idx/mine/execs/trans/maxlen + (choice, n) pairs
HEAD = 4096
SIG = 1 << 20


class Violated(Exception):
    pass


class Skip(Exception):
    pass


class Shared:
    def __init__(self, workers):
        self.m = mmap.mmap(-1, HEAD + SIG//8 + SLOT*workers)
        self.w = workers

    def off(self, w):
        return HEAD + SIG//8 + SLOT*w

    def stop(self):
        return self.m[0] != 0

    def set_stop(self):
        self.m[0] = 1

    def violation(self, limit):
        self.m[24] = min(255, self.m[24] + 1)
        if self.m[24] >= limit:
            self.set_stop()

    def reset(self):
        self.m[0] = 0
        struct.pack_into('q', self.m, 8, 0)
        for w in range(self.w):
            o = self.off(w)
            self.m[o:o+SLOT] = b'\0'*SLOT

    def outcome(self, h):
        h %= SIG
        self.m[HEAD + h//8] |= 1 << (h % 8)

    def distinct(self):
        return sum(bin(b).count('1') for b in self.m[HEAD:HEAD+SIG//8])


class Ctx:
    def __init__(self, prefix=(), split=0, sel=None, sh=None, w=0, verbose=False):
        self.prefix, self.ch, self.ns = list(prefix), [], []
        self.split, self.sel, self.sh, self.w, self.verbose = split, sel, sh, w, verbose
        self.trans = 0
        self.counts = {}

    def choose(self, n):
        assert n > 0, 'choose(%d)' % n
        i = len(self.ch)
        c = self.prefix[i] if i < len(self.prefix) else 0
        assert c < n, 'diverging prefix'
        self.ch.append(c)
        self.ns.append(n)
        if self.sh is not None:
            o = self.sh.off(self.w)
            if i < MAXC:
                struct.pack_into('ii', self.sh.m, o + 64 + 8*i, c, n)
            struct.pack_into('q', self.sh.m, o + 16, i + 1)
        if i + 1 == self.split and self.sel is not None:
            if not self.sel(tuple(self.ch)):
                raise Skip()
        return c

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def check(self, cond, *msg):
        if not cond:
            raise Violated(' '.join(str(m) for m in msg))

    def fail(self, *msg):
        raise Violated(' '.join(str(m) for m in msg))

    def note(self, *msg):
        if self.verbose:
            print('  ' + ' '.join(str(m) for m in msg))
            sys.stdout.flush()

    def outcome(self, x):
        if self.sh is not None:
            self.sh.outcome(zlib.crc32(repr(x).encode()))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def steps(self, n=1):
        self.trans += n


PARTS = []          # (name, kind, fn, options)


def part(name, fn, tiers=('quick', 'thorough'), split=2):
    PARTS.append((name, 'enum', fn, dict(tiers=tiers, split=split)))


def bfs(name, machine, depth, tiers=('quick', 'thorough'), max_states=400000):
    """machine: init(ctx) -> state; ops(state) -> list of operations; apply(ctx, state, op) (checks inside);
    key(state) -> something hashable and picklable which determines the future of the state"""
    PARTS.append((name, 'bfs', machine, dict(tiers=tiers, depth=depth, max_states=max_states)))


def quiet():
    """what the code under test prints (also from C) goes nowhere"""
    sys.stderr = os.fdopen(os.dup(2), 'w')
    f = os.open(os.devnull, os.O_WRONLY)
    os.dup2(f, 1)
    os.dup2(f, 2)
    os.close(f)


def describe(e):
    if isinstance(e, Violated):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
    return 'raised %s: %s (%s)' % (type(e).__name__, str(e)[:300], where)


def nxt(ch, ns):
    ch, ns = list(ch), list(ns)
    while ch and ch[-1] + 1 >= ns[-1]:
        ch.pop()
        ns.pop()
    if not ch:
        return None
    ch[-1] += 1
    return ch


class Runner:
    def __init__(self, args):
        self.a = args
        self.sh = Shared(args.workers)
        self.stats, self.viols, self.samples, self.counters = [], [], [], {}
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='mcpy')

    def left(self):
        return self.a.budget - (time.time() - self.t0)

    # one worker's share of an enumeration
    def worker(self, name, fn, opt, w, resume):
        sh, o = self.sh, self.sh.off(w)
        quiet()
        state = dict(last=None, idx=struct.unpack_from('q', sh.m, o + 24)[0], mine=struct.unpack_from('q', sh.m, o + 32)[0])

        def claim():
            import fcntl
            fcntl.lockf(self.lock, fcntl.LOCK_EX)
            v = struct.unpack_from('q', sh.m, 8)[0]
            struct.pack_into('q', sh.m, 8, v + 1)
            fcntl.lockf(self.lock, fcntl.LOCK_UN)
            return v

        def sel(p):
            if p != state['last']:
                state['last'] = p
                if resume_last[0] != p:
                    state['idx'] += 1
                resume_last[0] = None
                while state['mine'] < state['idx'] - 1:
                    state['mine'] = claim()
                struct.pack_into('qq', sh.m, o + 24, state['idx'], state['mine'])
            return state['mine'] == state['idx'] - 1

        self.lock = open(os.path.join(self.tmp, 'lock'), 'a+')
        resume_last = [None]
        prefix = []
        if resume is not None:
            ch, ns = resume
            resume_last[0] = tuple(ch[:opt['split']]) if len(ch) >= opt['split'] else None
            prefix = nxt(ch, ns)
            if prefix is None:
                return
            if tuple(prefix[:opt['split']]) != resume_last[0]:
                resume_last[0] = None
        else:
            state['mine'] = -1
            state['idx'] = 0
            state['mine'] = claim()
        out = open(os.path.join(self.tmp, 'w%d' % w), 'ab')
        counters, execs, trans, maxlen = {}, 0, 0, 0
        samples = []

        def flush():
            pickle.dump(dict(execs=execs, trans=trans, maxlen=maxlen, counters=counters, samples=samples), out)
            out.flush()
        n = 0
        tflush = time.time()
        while prefix is not None:
            if sh.stop():
                flush()
                os._exit(3)
            if self.left() < 0:
                flush()
                os._exit(4)
            c = Ctx(prefix, opt['split'], sel, sh, w)
            struct.pack_into('dq', sh.m, o + 8, time.time(), 0)
            sh.m[o] = 1
            skipped = False
            try:
                fn(c)
            except Skip:
                skipped = True
            except Exception as e:
                pickle.dump(dict(viol=dict(part=name, what=describe(e), choices=list(c.ch))), out)
                out.flush()
                sh.violation(self.a.max_viol)
            sh.m[o] = 0
            short = len(c.ch) < opt['split']
            if short and w != 0:
                skipped = True     # counted by worker 0 alone
            if not skipped:
                execs += 1
                trans += len(c.ch) + c.trans
                maxlen = max(maxlen, len(c.ch))
                for k, v in c.counts.items():
                    counters[k] = counters.get(k, 0) + v
                if execs in (1, 37, 1009):
                    samples.append((name, list(c.ch)))
            n += 1
            if time.time() - tflush > 2:
                flush()
                counters, execs, trans, samples = {}, 0, 0, []
                tflush = time.time()
            prefix = nxt(c.ch, c.ns)
        flush()
        os._exit(0)

    def pool(self, target, W, name):
        """runs target(w, resume) in W forked workers, restarting after crashes; returns whether all finished"""
        pids = {}
        complete = True
        for w in range(W):
            open(os.path.join(self.tmp, 'w%d' % w), 'wb').close()

        def start(w, resume):
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 97
                try:
                    target(w, resume)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                os._exit(code)
            pids[pid] = w
        for w in range(W):
            start(w, None)
        while pids:
            done, st = os.waitpid(-1, os.WNOHANG)
            if done == 0:
                now = time.time()
                for pid, w in list(pids.items()):
                    o = self.sh.off(w)
                    if self.sh.m[o] and now - struct.unpack_from('d', self.sh.m, o + 8)[0] > self.a.case_s:
                        os.kill(pid, signal.SIGKILL)
                        self.hung.add(w)
                time.sleep(0.02)
                continue
            if done not in pids:
                continue
            w = pids.pop(done)
            if os.WIFEXITED(st):
                code = os.WEXITSTATUS(st)
                if code == 97:
                    print('HARNESS-ERROR worker failed in %s' % name)
                    sys.exit(97)
                if code in (3, 4):
                    complete = False
                    continue
                if code == 0:
                    continue
            o = self.sh.off(w)
            n = min(MAXC, struct.unpack_from('q', self.sh.m, o + 16)[0])
            pairs = [struct.unpack_from('ii', self.sh.m, o + 64 + 8*i) for i in range(n)]
            what = 'no end within %d s' % self.a.case_s if w in self.hung else 'the process died (status %#x)' % st
            self.hung.discard(w)
            if self.sh.m[o]:
                self.viols.append(dict(part=name, what=what, choices=[c for c, _ in pairs]))
                self.sh.m[o] = 0
                if len(self.viols) >= self.a.max_viol:
                    self.sh.set_stop()
                    complete = False
                else:
                    start(w, ([c for c, _ in pairs], [k for _, k in pairs]))
            else:
                print('HARNESS-ERROR worker died outside a case in %s (%#x)' % (name, st))
                sys.exit(97)
        return complete

    def records(self, W):
        for w in range(W):
            with open(os.path.join(self.tmp, 'w%d' % w), 'rb') as f:
                while True:
                    try:
                        yield pickle.load(f)
                    except Exception:
                        break

    def enum(self, name, fn, opt):
        t = time.time()
        self.sh.reset()
        self.hung = set()
        W = self.a.workers
        complete = self.pool(lambda w, r: self.worker(name, fn, opt, w, r), W, name)
        ex = tr = ml = 0
        for r in self.records(W):
            if 'viol' in r:
                if len(self.viols) < 3*self.a.max_viol:
                    self.viols.append(r['viol'])
                continue
            ex += r['execs']
            tr += r['trans']
            ml = max(ml, r['maxlen'])
            for k, v in r['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            if len(self.samples) < 12:
                self.samples += r['samples'][:2]
        self.stats.append(dict(name=name, kind='enumeration', executions=ex, states=ex, transitions=tr, depth=ml, complete=complete, wall_s=round(time.time()-t, 2)))
        print('part %-28s executions=%d transitions=%d depth=%d%s  %.1fs' % (name, ex, tr, ml, '' if complete else ' (cut short)', time.time()-t))
        sys.stdout.flush()

    def search(self, name, mach, opt):
        t = time.time()
        W = self.a.workers
        seen, frontier, depth, trans, complete, capped = set(), [()], 0, 0, True, False
        c = Ctx()
        s = mach.init(c)
        seen.add(mach.key(s))
        maxd = min(opt['depth'], self.a.depth) if self.a.depth else opt['depth']
        while frontier and depth < maxd and complete and not self.viols:
            self.sh.reset()
            self.hung = set()

            def work(w, resume, frontier=frontier):
                sh, o = self.sh, self.sh.off(w)
                quiet()
                out = open(os.path.join(self.tmp, 'w%d' % w), 'ab')
                skip = tuple(resume[0]) if resume else None
                for i in range(w, len(frontier), W):
                    h = frontier[i]
                    k, nops = 0, None
                    if skip is not None:
                        if skip[:-1] != tuple(h):
                            continue
                        k, skip = skip[-1] + 1, None
                    while True:
                        if sh.stop():
                            os._exit(3)
                        if self.left() < 0:
                            os._exit(4)
                        full = list(h) + [k]
                        for j, x in enumerate(full[-MAXC:]):
                            struct.pack_into('ii', sh.m, o + 64 + 8*j, x, 1 << 30)
                        struct.pack_into('dq', sh.m, o + 8, time.time(), len(full))
                        sh.m[o] = 1
                        c = Ctx(sh=None)
                        try:
                            st = mach.init(c)
                            for x in h:
                                mach.apply(c, st, mach.ops(st)[x])
                            ops = mach.ops(st)
                            if k >= len(ops):
                                sh.m[o] = 0
                                break
                            mach.apply(c, st, ops[k])
                            key = mach.key(st)
                            pickle.dump(dict(key=key, hist=full, counts=c.counts), out)
                        except Exception as e:
                            pickle.dump(dict(viol=dict(part=name, what=describe(e), choices=full)), out)
                            out.flush()
                            sh.violation(self.a.max_viol)
                        sh.m[o] = 0
                        k += 1
                out.close()
                os._exit(0)
            complete = self.pool(work, W, name)
            new = []
            for r in self.records(W):
                if 'viol' in r:
                    self.viols.append(r['viol'])
                    continue
                trans += 1
                for k, v in r['counts'].items():
                    self.counters[k] = self.counters.get(k, 0) + v
                self.sh.outcome(zlib.crc32(repr(r['key']).encode()))
                if r['key'] not in seen:
                    if len(seen) >= opt['max_states']:
                        capped = True
                        continue
                    seen.add(r['key'])
                    new.append(tuple(r['hist']))
            new.sort()
            if new and len(self.samples) < 12:
                self.samples.append((name, list(new[len(new)//2])))
            frontier = new
            depth += 1
        self.stats.append(dict(name=name, kind='bfs', executions=trans, states=len(seen), transitions=trans, depth=depth, complete=complete and not capped, wall_s=round(time.time()-t, 2)))
        print('part %-28s states=%d transitions=%d depth=%d%s  %.1fs' % (name, len(seen), trans, depth, ' (closed)' if not frontier else ' (depth bound)' if complete and not capped else ' (cut short)', time.time()-t))
        sys.stdout.flush()


def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('--tier', default='quick')
    p.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    p.add_argument('--budget', type=float, default=600)
    p.add_argument('--case-s', type=float, default=60, dest='case_s')
    p.add_argument('--depth', type=int, default=0)
    p.add_argument('--max-viol', type=int, default=6, dest='max_viol')
    p.add_argument('--out')
    p.add_argument('--part', action='append', default=[])
    p.add_argument('--replay', nargs=2)
    a = p.parse_args()
    parts = [x for x in PARTS if a.tier in x[3]['tiers']]
    if a.replay:
        for name, kind, fn, opt in PARTS:
            if name == a.replay[0]:
                break
        else:
            print('HARNESS-ERROR no part %s' % a.replay[0])
            os._exit(99)
        keep = os.dup(1)
        sys.stdout = os.fdopen(keep, 'w')
        quiet()
        ch = [int(x) for x in a.replay[1].split(',') if x]
        c = Ctx(ch, verbose=True)
        try:
            if kind == 'enum':
                fn(c)
            else:
                s = fn.init(c)
                for x in ch:
                    op = fn.ops(s)[x]
                    c.note(op)
                    fn.apply(c, s, op)
        except Exception as e:
            if not isinstance(e, Violated):
                traceback.print_exc(file=sys.stdout)
            print('VIOLATED: ' + describe(e))
            sys.stdout.flush()
            os._exit(1)
        print('case passed')
        sys.stdout.flush()
        os._exit(0)
    r = Runner(a)
    for name, kind, fn, opt in parts:
        if a.part and name not in a.part:
            continue
        if r.viols:
            break
        (r.enum if kind == 'enum' else r.search)(name, fn, opt)
    import shutil
    shutil.rmtree(r.tmp, ignore_errors=True)
    res = dict(parts=r.stats, counters=r.counters, distinct_outcomes=r.sh.distinct(), violations=r.viols[:12],
               samples=[dict(part=n, choices=c) for n, c in r.samples], wall_s=round(time.time()-r.t0, 2))
    if a.out:
        json.dump(res, open(a.out, 'w'))
    else:
        json.dump(res, sys.stdout, indent=1)
    sys.stdout.flush()
    os._exit(1 if r.viols else 0)
