#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]   run one property's check against /repo's working tree
   check.py --replay <file>                replay a recorded failing case
   check.py --build                        build every harness (setup)"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SPVGENTWO_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import HARNESSES, PROPS, NPROC  # noqa: E402

CXX = 'clang++'
DEFS = ['-DSPVGENTWO_ENABLE_OPERANDVALIDATION=1', '-DSPVGENTWO_LOGGING=1', '-DSPVGENTWO_REPLACE_PLACEMENTNEW=1', '-DSPVGENTWO_REPLACE_TRAITS=1']
INC = ['-I' + REPO + '/lib/include', '-I' + REPO + '/common/include', '-I' + REPO, '-I' + VERIF + '/harness', '-I' + BUILD + '/gen']
BASE = ['-std=c++17', '-g1', '-fno-omit-frame-pointer', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all']
COV = ['-fsanitize-coverage=inline-8bit-counters,pc-table']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=16:malloc_context_size=6',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', LC_ALL='C')


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(dirs):
    out = []
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.inl', '.hpp', '.inc')):
                    p = os.path.join(r, f); out.append(p.encode() + b'\0' + read(p))
    return sha(*out)


def repo_sources(groups):
    res = []
    for g in groups:
        res += sorted(glob.glob(f'{REPO}/{g}/source/*.cpp'))
    return res


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def generate():
    """tables derived from the official grammar JSON"""
    gen = os.path.join(BUILD, 'gen'); os.makedirs(gen, exist_ok=True)
    tool = os.path.join(VERIF, 'tools', 'gen_grammar.py')
    if not os.path.exists(tool):
        return
    r = run([sys.executable, os.path.join(VERIF, 'tools', 'gen_spvnames.py'), REPO, gen + '/spvnames.inc'])
    if r.returncode:
        raise BuildError(r.stdout)
    stamp = sha(read(tool)); sf = os.path.join(gen, 'stamp')
    if os.path.exists(sf) and open(sf).read() == stamp:
        return
    r = run([sys.executable, tool, gen])
    if r.returncode:
        raise BuildError(r.stdout)
    with open(sf, 'w') as f:
        f.write(stamp)


def build(names, log=None):
    os.makedirs(BUILD + '/obj', exist_ok=True); os.makedirs(BUILD + '/bin', exist_ok=True)
    generate()
    hdr_repo = tree_hash([REPO + '/lib/include', REPO + '/common/include'])
    hdr_h = tree_hash([VERIF + '/harness', BUILD + '/gen'])
    jobs = {}
    links = []
    for n in names:
        h = HARNESSES[n]
        objs = []
        for src in [VERIF + '/harness/' + s for s in h['src']] + repo_sources(h.get('repo', [])):
            mine = src.startswith(VERIF)
            base = os.path.basename(src)
            if base == 'pbt.cpp':
                flags = BASE + ['-O1']; key = sha(read(src), read(VERIF + '/harness/pbt.h'), flags)
            elif not mine and base == 'Grammar.cpp':   # generated table code: too slow to instrument
                flags = BASE + ['-O0'] + DEFS + INC; key = sha(read(src), hdr_repo, flags)
            elif mine:
                tool = [read(f'{REPO}/{t}') for t in re.findall(r'#include "((?:dis|refl|link)/source/\w+\.cpp)"', read(src).decode())]
                flags = BASE + [h.get('opt', '-O1')] + SAN + DEFS + INC + h.get('flags', []); key = sha(read(src), hdr_repo, hdr_h, flags, *tool)
            else:
                flags = BASE + ['-O1'] + SAN + DEFS + INC + (COV if h.get('cov') else []) + h.get('repoflags', []); key = sha(src, read(src), hdr_repo, flags)
            o = f'{BUILD}/obj/{os.path.splitext(base)[0]}-{key}.o'
            cost = os.path.getsize(src) + (10**9 if mine else 0)
            jobs[o] = (cost, [CXX, *flags, '-c', src, '-o'])
            objs.append(o)
        # uninstrumented objects last, so that the instrumented copies of inline functions are kept
        objs.sort(key=lambda o: os.path.basename(o).startswith(('Grammar-', 'pbt-')))
        exe = f'{BUILD}/bin/{n}-{sha(*objs)}'
        links.append((n, exe, [CXX, *SAN, '-o', exe + '.tmp', *objs, *h.get('link', [])]))

    def compile_one(it):
        o, (c, cmd) = it
        if os.path.exists(o):
            os.utime(o); return None
        tmp = f'{o}.{os.getpid()}.tmp'
        r = run(cmd + [tmp])
        if r.returncode:
            return ' '.join(cmd) + '\n' + r.stdout[-6000:]
        os.rename(tmp, o); return None
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(compile_one, sorted(jobs.items(), key=lambda kv: -kv[1][0])) if e]
    if errs:
        raise BuildError(errs[0])
    exes = {}

    def link_one(l):
        n, exe, cmd = l
        exes[n] = exe
        if os.path.exists(exe):
            os.utime(exe); return None
        r = run(cmd)
        if r.returncode:
            return r.stdout[-6000:]
        os.rename(exe + '.tmp', exe); return None
    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(link_one, links) if e]
    if errs:
        raise BuildError(errs[0])
    return exes


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 3
    if sys.argv[1] == '--build':
        t = time.time(); ex = build(sorted(HARNESSES))
        print(f'built {len(ex)} harnesses in {time.time()-t:.0f}s'); return 0
    if sys.argv[1] == '--replay':
        txt = open(sys.argv[2], errors='replace').read()
        prop = re.search(r'property:\s*(\w+)', txt).group(1)
        exe = build([PROPS[prop]['h']])[PROPS[prop]['h']]
        return subprocess.run([exe, '--replay', sys.argv[2]], env=ENV).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    try:
        exe = build([cfg['h']])[cfg['h']]
    except BuildError as e:
        print(e); print(f'ERROR property={prop} the harness does not build against the current tree'); return 3
    tb = time.time() - t0
    work = f'{BUILD}/run/{prop}-{os.getpid()}'
    os.makedirs(work, exist_ok=True)
    try:
        return search(prop, tier, seed, cfg, exe, tb, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def search(prop, tier, seed, cfg, exe, tb, work, t0):
    if REPO != '/repo': ENV['SPVGENTWO_REPO'] = REPO
    count = cfg['quick'] if tier == 'quick' else cfg.get('thorough', cfg['quick'] * 10)
    max_sec = float(os.environ.get('VERIF_MAX_SEC', 0)) or (cfg.get('max_quick', 150) if tier == 'quick' else 700)
    shrink = 60 if tier == 'quick' else 100
    n = cfg.get('workers', NPROC)
    per = (count + n - 1) // n

    # ---- known findings: replayed first, each identified by its recorded input
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'open']
    known_lines, kstate = [], {}
    if kf:
        r = subprocess.run([exe, '--prop', prop, '--known'], env=dict(ENV, PBT_TMP=work), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
        for l in r.stdout.splitlines():
            f = l.split('\t')
            if len(f) >= 2:
                kstate[f[0]] = f[1]
        for k in kf:
            st = kstate.get(k['id'], 'unknown')
            if st == 'reproduces':
                known_lines.append(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
            elif st == 'unknown':
                print(f"ERROR known finding {k['id']} has no reproducer in the harness"); return 3
    procs = []
    for i in range(n):
        out, ff = f'{work}/s{i}.json', f'{work}/f{i}.txt'
        wd = f'{work}/w{i}'; os.makedirs(wd, exist_ok=True)
        p = subprocess.Popen([exe, '--prop', prop, '--seed', str(seed), '--start', str(i), '--step', str(n), '--count', str(per), '--max-sec', str(max_sec), '--shrink-sec', str(shrink), '--out', out, '--fail-out', ff],
                             env=dict(ENV, PBT_TMP=wd), cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        procs.append((p, out, ff))
    rcs = [0] * n; stop = False
    first_fail = None
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.05)
        if first_fail is None and any(p.poll() not in (None, 0) for p, _, _ in procs):
            first_fail = time.time()
        # once one worker has its (shrunk) failure, others get a little time to finish theirs
        if first_fail and time.time() - first_fail > 5:
            for p, _, _ in procs:
                if p.poll() is None:
                    p.kill()
            break
    agg = dict(evaluations=0, nontrivial=0, discarded=0, choices=0); labels = {}; samples = []; hashes = set(); rule = ''; timed = False
    fails, errs = [], []
    for i, (p, out, ff) in enumerate(procs):
        _, err = p.communicate()
        rcs[i] = p.returncode
        if p.returncode == 0 and os.path.exists(out):
            s = json.load(open(out))
            for k in agg:
                agg[k] += s[k]
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
            samples += s['samples']; hashes.update(s['hashes']); rule = s['rule']; timed |= s['timed_out']
        elif p.returncode == 1 and os.path.exists(ff):
            fails.append(ff)
        elif p.returncode not in (0, -9):
            errs.append(f'worker {i} rc={p.returncode} {err[-1500:]}')
    for k in kf:
        labels.setdefault('known-finding replays', 0); labels['known-finding replays'] += 1
    violations = []
    if fails:
        fails.sort(key=lambda f: len(read(f)))
        rep_dir = f'{BUILD}/replays'; os.makedirs(rep_dir, exist_ok=True)
        for ff in fails:
            ok = all(subprocess.run([exe, '--replay', ff], env=dict(ENV, PBT_TMP=work), cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3))
            if not ok:
                errs.append('failing case is not reproducible: ' + read(ff)[:1500].decode(errors='replace')); continue
            dst = f'{rep_dir}/{prop}-seed{seed}-{sha(read(ff))[:8]}.txt'
            shutil.copy(ff, dst); violations.append((dst, read(ff).decode(errors='replace'))); break
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': agg['evaluations'], 'distinct_nontrivial': len(hashes), 'rule': rule,
                     'samples': samples[:6] if samples else [], 'nontrivial': agg['nontrivial'], 'discarded': agg['discarded'],
                     'choices_drawn': agg['choices'], 'labels': dict(sorted(labels.items())), 'requested_cases': count, 'stopped_by_time': timed},
        'wall_s': round(time.time() - t0, 1), 'build_s': round(tb, 1),
        'assumptions': cfg.get('assumptions', []),
        'violations': len(violations), 'replays': [v[0] for v in violations],
        'known_findings': known_lines,
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    print(f"{prop} {tier} seed={seed}: {agg['evaluations']} cases, {len(hashes)} distinct non-trivial, {agg['discarded']} discarded, build {tb:.0f}s, total {time.time()-t0:.0f}s")
    for e in errs:
        print('ERROR', e)
    if violations:
        path, txt = violations[0]
        print(txt[:4000]); print(f'VIOLATION property={prop} replay={path}'); return 1
    if errs:
        return 3
    if agg['evaluations'] == 0 or (len(hashes) < cfg.get('min_nontrivial', 50)):
        print('ERROR: too few non-trivial cases'); return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
