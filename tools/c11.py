"""C11: threads that share a logger or a value; run natively, under ThreadSanitizer and under Miri."""
import json, os, re, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vlib

DIR = os.path.join(vlib.VERIF, 'conc')
TARGET = 'x86_64-unknown-linux-gnu'
# Iterations of each of the 8 processes, and seconds after which they stop.
WORK = {'quick': {'native': (4500, 90), 'tsan': (360, 90), 'miri': (27, 150)},
        'thorough': {'native': (60000, 900), 'tsan': (6000, 900), 'miri': (300, 1500)}}
MIRI = '-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-preemption-rate=%s -Zmiri-seed=%d'


def target(engine):
    return os.path.join(vlib.BUILD, 'target-conc-' + engine)


def cargo(engine, args, **more):
    cmd = ['cargo'] + ([] if engine == 'native' else ['+nightly']) + args
    flags = '-Awarnings' + (' -Zsanitizer=thread' if engine == 'tsan' else '')
    return cmd, vlib.env(CARGO_TARGET_DIR=target(engine), RUSTFLAGS=flags, **more)


def build(engine):
    """(path of the program or None, output)"""
    if engine == 'miri':
        # Builds by running nothing.
        cmd, e = cargo(engine, ['miri', 'run', '--offline', '--quiet', '--', '--from', '0', '--to', '0'], MIRIFLAGS=MIRI % ('0.01', 0))
        path = 'miri'
    elif engine == 'tsan':
        cmd, e = cargo(engine, ['build', '--offline', '--quiet', '-Zbuild-std', '--target', TARGET])
        path = os.path.join(target(engine), TARGET, 'debug', 'conc')
    else:
        cmd, e = cargo(engine, ['build', '--offline', '--quiet'])
        path = os.path.join(target(engine), 'debug', 'conc')
    code, out = vlib.sh(cmd, timeout=600, cwd=DIR, environ=e)
    return (path if code == 0 else None), out


def play(engine, path, seed, begin, end, cap, noise):
    args = ['--seed', str(seed), '--from', str(begin), '--to', str(end), '--cap', str(cap)]
    if engine == 'miri':
        # The preemption rate and schedule differ from process to process.
        cmd, e = cargo(engine, ['miri', 'run', '--offline', '--quiet', '--'] + args, MIRIFLAGS=MIRI % (('0.01', '0.05', '0.2', '0.5')[noise % 4], noise))
        return vlib.sh(cmd, timeout=cap * 2 + 200, cwd=DIR, environ=e)
    return vlib.sh([path] + args, timeout=cap * 2 + 200, environ=vlib.env(TSAN_OPTIONS='halt_on_error=1 exitcode=66 second_deadlock_stack=1'))


def judge(code, out):
    """None if fine, else what is wrong; raises if it is the check's own failure."""
    if code == 0 and 'STATS ' in out:
        return None
    m = re.search(r'^FAIL (\d+) (.*)', out, re.M | re.S)
    if code in (1, 97) and m:
        return 'iteration %s: %s' % (m.group(1), m.group(2)[:2500])
    if 'WARNING: ThreadSanitizer' in out:
        i = out.index('WARNING: ThreadSanitizer')
        return out[i:i + 2500]
    m = re.search(r'error: (Undefined Behavior|the evaluated program deadlocked|deadlock).*', out, re.S)
    if m:
        return 'Miri: ' + m.group(0)[:2500]
    if code is not None and code < 0 and code != -9:
        return 'the process dies of signal %d: %s' % (-code, out[-500:])
    raise vlib.Harness('conc: exit %s: %s' % (code, out[-2000:]))


def iteration_of(what):
    m = re.match(r'iteration (\d+):', what)
    return int(m.group(1)) if m else None


def check(run):
    run.rule = ('iterations of 2 to 8 threads that work on disjoint parts of one tree, on trees that share a logger, or read one value; each is played by one thread after the other and by '
                'all at once; evaluations: entries and reads compared; distinct: orders of the threads in the logs')
    run.assumptions = ['one thread after the other is right (C01 to C20 look at that)', 'schedules are those of the operating system and, under Miri, of its seeded scheduler']
    with vlib.locked('conc'):
        with ThreadPoolExecutor(3) as ex:
            built = dict(zip(('native', 'tsan', 'miri'), ex.map(build, ('native', 'tsan', 'miri'))))
        for engine, (path, out) in built.items():
            if path is None:
                m = re.search(r'error\[E0277\]: (`[^\n]*` cannot be (?:sent|shared) between threads safely.*)', out, re.S)
                if m:
                    run.violation('a value or runtime cannot be used by several threads: ' + m.group(1)[:2000], dict(engine='compiler', errors=m.group(1)[:5000]))
                    return
                raise vlib.Harness('conc does not build (%s): %s' % (engine, out[-4000:]))
        orders = set()
        for engine in ('native', 'tsan', 'miri'):
            path = built[engine][0]
            n, cap = WORK[run.tier][engine]
            with ThreadPoolExecutor(8) as ex:
                jobs = [(run.seed * 1000 + w + (100 if engine == 'tsan' else 200 if engine == 'miri' else 0), w) for w in range(8)]
                got = list(ex.map(lambda j: play(engine, path, j[0], 0, n, cap, run.seed * 8 + j[1]), jobs))
            for (s, w), (code, out) in zip(jobs, got):
                wrong = judge(code, out)
                if wrong is not None:
                    run.violation('%s, seed %d: %s' % (engine, s, wrong), dict(engine=engine, case_seed=s, iteration=iteration_of(wrong), noise=run.seed * 8 + w, iterations=n))
                    return
                st = json.loads(re.search(r'STATS (.*)', out).group(1))
                orders.update(st.pop('orders'))
                run.evaluations += st['entries'] + st['concurrent reads']
                for k, v in st.items():
                    run.count('%s: %s' % (engine, k), v)
        run.distinct = len(orders)
        run.samples = ['seed %d under %s: 8 processes of up to %d iterations' % (run.seed, e, WORK[run.tier][e][0]) for e in built]


def replay(r):
    """Plays the iteration again, many times, since schedules differ."""
    if r['engine'] == 'compiler':
        path, out = build('native')
        if path:
            return 0
        print(out[-3000:])
        return 1
    with vlib.locked('conc'):
        path, out = build(r['engine'])
        if path is None:
            raise vlib.Harness(out[-4000:])
    k = r.get('iteration')
    for t in range(1 if r['engine'] == 'miri' or k is None else 300):
        wrong = judge(*play(r['engine'], path, r['case_seed'], 0 if k is None else k, r['iterations'] if k is None else k + 1, 300, r['noise']))
        if wrong:
            print(wrong)
            return 1
    return 0
