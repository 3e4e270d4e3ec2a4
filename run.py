#!/usr/bin/env python3
"""run.py PROP [quick|thorough]  |  run.py setup
Builds the harness of the property from /repo's working tree, runs it under a watchdog and passes
its verdict on: exit 0 held, 1 violated (with a VIOLATION line), anything else: no verdict."""
import json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(ROOT, 'target')
HARNESS = os.path.join(ROOT, 'harness')

ENV = dict(os.environ)
ENV.setdefault('HOME', '/root')
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '/usr/local/bin:/usr/bin:/bin')
ENV.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTC_WRAPPER='',
           RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTFLAGS='-Awarnings')
for k in ('CARGO_TARGET_DIR', 'RUSTC', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)

SEED = os.environ.get('VERIF_SEED', '1')
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')

class NoVerdict(Exception):
    pass

class Violated(Exception):
    pass

def cargo(crate, *args, env=None, target=None, toolchain=None):
    e = dict(ENV)
    e['CARGO_TARGET_DIR'] = target or os.path.join(TARGET, crate)
    if toolchain:
        e['RUSTUP_TOOLCHAIN'] = toolchain
    e.update(env or {})
    t = time.time()
    p = subprocess.run(['cargo', 'build', '--offline', '-q', *args], cwd=os.path.join(HARNESS, crate), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-6000:])
        raise NoVerdict(f'{crate} does not build')
    print(f'[built {crate} in {time.time() - t:.1f} s]', flush=True)
    return e['CARGO_TARGET_DIR']

def rt():
    return [os.path.join(cargo('rt'), 'debug', 'rt')]

def rt_nodebug():
    return [os.path.join(cargo('rt', '--profile', 'nodebug'), 'nodebug', 'rt')]

def rt_ids():
    counter = os.path.join(cargo('rtc'), 'debug', 'rtc')
    browser = ['node', os.path.join(HARNESS, 'ww', 'js', 'run.js'), ww()[1], 'P10', SEED, '0', '6', '1']
    return rt(), ['--aux', counter, '--browser', '\t'.join(browser)]

def compiler_says(crate, gen, target, mode, *more):
    """Errors of a crate including the generated file, as [(first line, last line, text)] in that file; fails
    if the crates it is made of do not build."""
    e = dict(ENV, GEN=gen, CARGO_TARGET_DIR=target)
    deps = subprocess.run(['cargo', mode, '--offline', '-q', '-p', 'stylist'], cwd=os.path.join(HARNESS, crate), env=e,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if deps.returncode:
        print(deps.stdout[-6000:])
        raise NoVerdict('stylist does not build')
    p = subprocess.run(['cargo', mode, '--offline', '-q', '--message-format=json', *more], cwd=os.path.join(HARNESS, crate), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out, lost = [], []
    for l in p.stdout.split('\n'):
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] not in ('error', 'error: internal compiler error'):
            continue
        m = m['message']
        found = False
        for sp in m['spans']:
            while sp:
                if sp['is_primary'] and os.path.abspath(sp['file_name']) == gen:
                    out.append((sp['line_start'], sp['line_end'], m['message']))
                    found = True
                sp = (sp.get('expansion') or {}).get('span')
                if sp:
                    sp['is_primary'] = True
        if not found and not m['message'].startswith('aborting') and m['spans']:
            lost.append(m.get('rendered') or m['message'])
    if p.returncode and not out:
        print(p.stderr[-3000:], *lost[:5])
        raise NoVerdict(f'{crate} does not build')
    return out

def macgen():
    return os.path.join(cargo('macgen'), 'debug', 'macgen')

def mac_counts():
    return ('3000', '3000') if TIER == 'thorough' else ('600', '600')

def generated(crate, gen, path, made):
    """A crate including generated cases; those the compiler refuses are left out and reported."""
    target = os.path.join(TARGET, crate)
    rejected = {}
    for _ in range(8):
        subprocess.run([macgen(), *gen, path, ','.join(rejected)], check=True)
        t = time.time()
        p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(HARNESS, crate), env=dict(ENV, GEN=path, CARGO_TARGET_DIR=target),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not p.returncode:
            print(f'[built {crate} in {time.time() - t:.1f} s]', flush=True)
            break
        ids, cur = [], None
        for l in open(path):
            m = re.match(r'// case (\w+)$', l)
            cur = m[1] if m else cur
            ids.append(cur)
        new = {}
        for a, b, text in compiler_says(crate, path, target, 'build', *made):
            c = ids[a - 1]
            if c and c not in rejected:
                new.setdefault(c, text)
        if not new:
            print(p.stdout[-6000:])
            raise NoVerdict(crate + ' does not build')
        rejected.update(new)
    else:
        raise NoVerdict(crate + ' does not build')
    f = os.path.join(TARGET, crate + '-rejected.tsv')
    with open(f, 'w') as o:
        for k, v in rejected.items():
            o.write(k + '\t' + ' '.join(v.split()) + '\n')
    return [os.path.join(target, 'debug', crate)], ['--rejected', f]

def mac():
    return generated('mac', ['cases', SEED, *mac_counts()], os.path.join(TARGET, 'gen.rs'), [])

def sur():
    """The same invocations in three editions."""
    return generated('sur', ['surround', SEED, '12000' if TIER == 'thorough' else '800'], os.path.join(TARGET, 'sur.rs'), ['--keep-going'])

def sty():
    """The same components, with and without the mark, in three editions."""
    return generated('sty', ['comps', SEED, '900' if TIER == 'thorough' else '240'], os.path.join(TARGET, 'sty.rs'), ['--keep-going'])

def rej():
    gen = macgen()
    d = os.path.join(TARGET, 'rejgen')
    os.makedirs(d, exist_ok=True)
    subprocess.run([gen, 'reject', SEED, '4000' if TIER == 'thorough' else '640', d], check=True)
    res = []
    for name in ('bad', 'ty'):
        path = os.path.join(d, name + '.rs')
        t = time.time()
        errs = compiler_says('rej', path, os.path.join(TARGET, 'rej'), 'check')
        print(f'[{name}: {len(errs)} diagnostics in {time.time() - t:.1f} s]', flush=True)
        out = os.path.join(d, name + '.results')
        with open(out, 'w') as o:
            for l in open(os.path.join(d, name + '.tsv')):
                i, a, b, kind, exp, inv = l.rstrip('\n').split('\t')
                said = next((m for x, y, m in errs if int(a) <= x <= int(b)), '')
                o.write('\t'.join([i, kind, exp, ' '.join(said.split()), inv]) + '\n')
        res.append(out)
    return [gen], res

def yw():
    return [os.path.join(cargo('yw'), 'debug', 'yw')]

def yw_nodebug():
    return [os.path.join(cargo('yw', '--profile', 'nodebug'), 'nodebug', 'yw')]

def ww():
    """The library for wasm32, in a document of its own (harness/ww/js)."""
    src = os.path.join(HARNESS, 'ww')
    d = os.path.join(TARGET, 'wwvendor')
    lock = open(os.path.join(src, 'Cargo.lock')).read()
    stamp = os.path.join(d, 'lock')
    vendor = os.path.join(d, 'vendor')
    if not os.path.exists(stamp) or open(stamp).read() != lock:
        # crates of the standard library come from the toolchain, and the registry has to be replaced for both
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        p = subprocess.run(['cargo', 'vendor', '--offline', '--locked', '--versioned-dirs', vendor], cwd=src, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-3000:])
            raise NoVerdict('crates cannot be vendored')
        root = subprocess.run(['rustc', '--print', 'sysroot'], env=dict(ENV, RUSTUP_TOOLCHAIN='nightly'), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        std = os.path.join(root, 'lib/rustlib/src/rust/library/vendor')
        for c in os.listdir(std):
            if not os.path.exists(os.path.join(vendor, c)):
                os.symlink(os.path.join(std, c), os.path.join(vendor, c))
        open(stamp, 'w').write(lock)
    out = cargo('ww', '--locked', '-Zbuild-std=std,panic_abort', '--target', 'wasm32-unknown-unknown',
                '--config', 'source.crates-io.replace-with="vendored-sources"', '--config', f'source.vendored-sources.directory="{vendor}"',
                env=dict(RUSTFLAGS='-Awarnings -Clink-arg=--export-table'), toolchain='nightly')
    tally = os.path.join(cargo('oracle', '--release'), 'release', 'tally')
    return tally, os.path.join(out, 'wasm32-unknown-unknown', 'debug', 'ww.wasm')

# property -> (cases quick, cases thorough, what is counted, least counts, rule)
WW = {
    'P24': (3000, 80000, 'states_compared=1000,elements_compared=2000,mounted=1000,shared=100,failed_mounts=50', 'random histories of managers, styles, containers of ten kinds and foreign changes to the document; non-trivial: see shape; distinct by history'),
    'P27': (3000, 100000, 'states_compared=1000,queries_compared=2000,queries_changed=100', 'random histories of components watching media queries and of changes of the surroundings; distinct by history'),
    'P28': (2400, 60000, 'states_compared=1000,classes_resolved=2000,global_styles_compared=500', 'random trees of components, re-rendered several times and unmounted, in a document; non-trivial: a leaf below a provider or a Global; distinct by sequence of trees'),
    'P31': (1500, 20000, 'repetitions_measured=1000,renders=500,histories=200,references_seen=200', 'sequences of component trees, watched media queries and histories of styles, each repeated 7 times; non-trivial: it makes a style or watches a query; distinct by sequence'),
    'P30': (2000, 20000, 'states_compared=1000,elements_taken_over=500,styles_taken_over=500,states_fetched=500,media_queries_followed=100', 'random trees rendered on the server, taken over by a client and re-rendered there; non-trivial: a leaf below a provider or a Global; distinct by sequence of trees'),
}

# build -> arguments: what the library can be built for
TWINS = {
    'reference': ['--features', 'page,random,debug'],
    'release': ['--release', '--features', 'page,random,debug'],
    'lean': ['--features', 'page'],
    'plain': ['--features', 'random'],
    'server': ['--release', '--features', 'ssr'],
    'client': ['--features', 'yew,hydration,random'],
}

def twin():
    """The same workload in several builds and in a document."""
    def one(name):
        args = TWINS[name]
        return os.path.join(cargo('twin', *args, target=os.path.join(TARGET, 'twin', name)), 'release' if '--release' in args else 'debug', 'twin')
    with ThreadPoolExecutor(3) as ex:
        jobs = {n: ex.submit(one, n) for n in TWINS}
        wasm = ww()[1]
        cmds = [n + '\t' + j.result() for n, j in jobs.items()]
    cmds.append('\t'.join(['browser', 'node', os.path.join(HARNESS, 'ww', 'js', 'run.js'), wasm, 'P32']))
    agree = os.path.join(cargo('oracle', '--release'), 'release', 'agree')
    mins = [f'compared_{n}=1000' for n in [*TWINS, 'browser'] if n != 'reference'] + [f'compared_{n}=300' for n in ('text', 'pieces', 'history', 'macros', 'classes', 'capture', 'again', 'page')]
    return [agree], ['--', '500', '16000', 'parsing valid and damaged texts, sheets from pieces, histories of managers, macros, captured data, its hydration and rendered pages, case by case in seven builds (debug and release, with and without random ids, debug parser, style locations, yew, ssr and hydration, wasm32), compared to the first; distinct by section and what it says', ','.join(mins), *cmds]

def loc():
    """The same components with and without style locations."""
    d = os.path.join(TARGET, 'places')
    os.makedirs(d, exist_ok=True)
    subprocess.run([macgen(), 'places', SEED, '1500' if TIER == 'thorough' else '240', d], check=True)
    def one(a):
        name, args, profile = a
        return name + '\t' + os.path.join(cargo('loc', *args, env={'GEN': d}, target=os.path.join(TARGET, 'loc', name)), profile, 'loc')
    with ThreadPoolExecutor(3) as ex:
        bins = list(ex.map(one, [('located', [], 'debug'), ('release', ['--profile', 'nodebug'], 'nodebug'), ('off', ['--no-default-features'], 'debug')]))
    return [bins[0].split('\t')[1]], bins

def in_document(prop):
    def f():
        tally, wasm = ww()
        q, t, mins, rule = WW[prop]
        if prop == 'P30':
            n = t if TIER == 'thorough' else q
            path = os.path.join(TARGET, 'markup.json')
            with open(path, 'w') as o:
                p = subprocess.run([*yw(), 'markup', SEED, '0', str(n)], stdout=o, stderr=subprocess.PIPE, text=True,
                                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (300 if TIER == 'quick' else 6000, resource.RLIM_INFINITY)))
            if p.returncode:
                violation(prop, 'rendering on the server fails: ' + p.stderr[-2000:])
                raise Violated
            ENV['MARKUP'] = path
        return [tally], ['--', str(q), str(t), rule, mins, 'node', os.path.join(HARNESS, 'ww', 'js', 'run.js'), wasm, prop, SEED]
    f.wasm = True
    return f

# property -> function building what it needs and returning the command
CHECKS = {p: rt for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P12', 'P13', 'P14', 'P15', 'P26', 'P33')}
CHECKS.update(P10=rt_ids, P11=rt_nodebug, P16=mac, P17=mac, P18=rej, P19=mac, P20=mac, P21=yw, P22=yw, P23=yw, P29=yw, P25=yw_nodebug, P32=twin, P34=loc, P35=sur, P36=sty)
CHECKS.update({p: in_document(p) for p in WW})

def tree_cpu(pid):
    """CPU seconds of the process and its children (own process group only)."""
    total = 0.0
    tick = os.sysconf('SC_CLK_TCK')
    for d in os.listdir('/proc'):
        if not d.isdigit():
            continue
        try:
            f = open(f'/proc/{d}/stat').read().rsplit(')', 1)[1].split()
        except OSError:
            continue
        if int(f[2]) == pid:
            total += (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / tick
    return total

def violation(prop, text):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-run.txt')
    open(path, 'w').write(text)
    print(f'VIOLATION property={prop} replay={path}')
    print('    ' + text[-1500:].replace('\n', '\n    '))

def main():
    what = sys.argv[1]
    if what == 'setup':
        for f in dict.fromkeys(ww if hasattr(f, 'wasm') else f for f in CHECKS.values()):
            try:
                f()
            except NoVerdict as e:
                print('setup:', e)
        return 0
    tier, seed = TIER, SEED
    ev = os.path.join(ROOT, 'evidence', what + '.json')
    if os.path.exists(ev):
        os.remove(ev)
    try:
        cmd = CHECKS[what]()
    except Violated:
        return 1
    cmd, extra = cmd if isinstance(cmd, tuple) else (cmd, [])
    cmd = cmd + [what, '--tier', tier, '--seed', seed, '--evidence', ev,
                            '--replay-dir', os.path.join(ROOT, 'replay'), '--known', os.path.join(ROOT, 'known_findings.txt')] + extra
    cap_cpu = 2400.0 if tier == 'quick' else 60000.0   # nominal: a few tens of seconds
    cap_wall = 780.0 if tier == 'quick' else 36000.0
    log = os.path.join(TARGET, f'{what}.log')
    with open(log, 'w') as f:
        e = dict(ENV, VERIF_TIER=tier, VERIF_SEED=seed)
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=ROOT, start_new_session=True)
    t0 = last_t = time.time()
    last_cpu = 0.0
    hung = None
    while p.poll() is None:
        time.sleep(0.2)
        now = time.time()
        if now - last_t > 5:
            cpu = tree_cpu(p.pid)
            if cpu > last_cpu + 0.02:
                last_cpu, last_t = cpu, now
            elif now - last_t > 150:
                hung = f'no progress for 150 s (deadlock), {last_cpu:.0f} s CPU used'
        if last_cpu > cap_cpu:
            hung = f'{last_cpu:.0f} s CPU used without finishing'
        if not hung and now - t0 > cap_wall:
            hung = 'time'
        if hung:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)    # whatever it left behind
    except OSError:
        pass
    out = open(log, errors='replace').read()
    sys.stdout.write(out[-20000:])
    rc = p.returncode
    if hung and hung != 'time':
        violation(what, f'the code under test did not finish: {hung}\n{out[-3000:]}')
        rc = 1
    elif hung:
        print('no verdict: out of time')
        rc = 5
    elif rc < 0 and rc != -signal.SIGKILL:
        violation(what, f'the code under test ended the process with signal {-rc}\n{out[-3000:]}')
        rc = 1
    elif rc == 1 and 'VIOLATION property=' + what not in out:
        rc = 6
    if rc == 1 and not os.path.exists(ev):
        json.dump(dict(property=what, tier=tier, seed=int(seed), level='exploration', wall_s=time.time() - t0, violations=1,
                       coverage=dict(evaluations=0, distinct_nontrivial=0, rule='process ended early', samples=[out[-500:]])), open(ev, 'w'))
    return rc

if __name__ == '__main__':
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    try:
        rc = main()
    except NoVerdict as e:
        print('no verdict:', e)
        rc = 4
    sys.exit(rc)
