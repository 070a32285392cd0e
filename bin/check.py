#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only ENTRY,...] [--keep]
Builds the symbolic engine and the harness crate (which compiles /repo's current tree to LLVM IR), runs every
harness entry of the property symbolically, replays what the solver found on the native build, validates a sample of
paths natively, cross-checks a sample of solver queries with two other solvers and writes evidence/<property>.json.
exit 0: held on everything explored; 1: VIOLATION line(s); 2: no verdict (build failure, budget exhausted, ...)."""
import argparse, glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')
TC = 'stable-x86_64-unknown-linux-gnu'
SYS = f'/root/.rustup/toolchains/{TC}'
NCPU = os.cpu_count() or 8
STORE = {'C37'}  # properties decided on the crate built with its storage features (rkyv, serde), in a build of their own


def target(store):
    return os.path.join(B, 'target-store' if store else 'target')


def die(msg, code=2):
    print('CHECK-ERROR: ' + msg)
    sys.exit(code)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    src = [os.path.join(V, 'engine', f) for f in ('engine.cpp', 'expr.cpp', 'expr.h', 'interp.inc', 'translate.inc')]
    out = os.path.join(B, 'symir')
    if os.path.exists(out) and all(os.path.getmtime(out) > os.path.getmtime(s) for s in src):
        return None
    lib = glob.glob(SYS + '/lib/libLLVM.so*rust*')
    if not lib:
        return 'libLLVM of the Rust toolchain not found'
    lib = os.path.basename(lib[0])

    def comp(s):
        return run(['g++', '-O2', '-g1', '-std=c++17', '-I/usr/include/llvm-c-18', '-I/usr/include/llvm-18', '-c', s, '-o', os.path.join(B, os.path.basename(s) + f'.{os.getpid()}.o')])
    with ThreadPoolExecutor() as ex:
        rs = list(ex.map(comp, src[:2]))
    for r in rs:
        if r.returncode:
            return r.stdout[-1500:]
    objs = [os.path.join(B, os.path.basename(s) + f'.{os.getpid()}.o') for s in src[:2]]
    r = run(['g++', *objs, '-o', out + f'.{os.getpid()}', f'-L{SYS}/lib', '-l:' + lib, f'-Wl,-rpath,{SYS}/lib', '-lz3'])
    for o in objs:
        os.unlink(o)
    if r.returncode:
        return r.stdout[-1500:]
    os.rename(out + f'.{os.getpid()}', out)
    return None


def build_harness(store=False):
    h = os.path.join(V, 'harness')
    lock = os.path.join(h, 'Cargo.lock')
    if not os.path.exists(lock):
        shutil.copy('/opt/vp/Cargo.lock' if os.path.exists('/opt/vp/Cargo.lock') else '/repo/Cargo.lock', lock)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=target(store))
    for k in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    deps = os.path.join(target(store), 'release', 'deps')
    before = {f: os.path.getmtime(f) for f in glob.glob(deps + '/vfmain-*.lto.input.bc')}
    r = run(['cargo', 'rustc', '--release', '--offline', '--bin', 'vfmain', *(['--features', 'store'] if store else []), '--', '-C', 'save-temps', '-C', 'opt-level=0'], cwd=h, env=env)
    if r.returncode:
        return r.stdout[-6000:], None
    bcs = sorted(glob.glob(deps + '/vfmain-*.lto.input.bc'), key=os.path.getmtime)
    if not bcs:
        return 'no bitcode produced', None
    for f in bcs[:-1]:
        os.unlink(f)
    for f in glob.glob(deps + '/vfmain*.bc') + glob.glob(deps + '/*.rcgu.o'):
        if f != bcs[-1]:
            os.unlink(f)
    return None, bcs[-1]


def entries():
    """entry name -> (bounds text, required reach ids), from the doc comments of the harness entries"""
    r = {}
    for f in sorted(glob.glob(V + '/harness/src/*.rs')):
        doc = []
        for l in open(f):
            l = l.strip()
            if l.startswith('///'):
                doc.append(l[3:].strip())
                continue
            m = re.match(r'(h_c\d\d_\w+)\s*\{', l)
            if m:
                reach, bounds = [], []
                for d in doc:
                    if d.startswith('reach:'):
                        reach += [int(x) for x in d[6:].split()]
                    else:
                        bounds.append(d)
                r[m.group(1)] = (' '.join(bounds), reach)
            doc = []
    return r


def native(entry, inp, params, timeout=60):
    # VF: the native build of the harness, set by main()
    try:
        r = subprocess.run([VF, entry, inp, *map(str, params), '-v'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0)))
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace')


def reproduced(v, rc):
    k = v['check']
    if k == 'hang':
        return rc == 'timeout' or (isinstance(rc, int) and rc < 0)
    return rc == 10 or rc == 'timeout' or (isinstance(rc, int) and (rc < 0 or rc == 134 or rc == 101))


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), text=True, capture_output=True)
        return r.stdout.split('\n')[:len(names)]
    except Exception:
        return names


def known_findings():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def main():
    global VF
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--build', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--nobuild', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop, tier = a.prop, a.tier
    params = [1 if tier == 'thorough' else 0]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    evf = f'{V}/evidence/{prop}.json'
    if prop and os.path.exists(evf):
        os.unlink(evf)
    if a.build:
        with ThreadPoolExecutor() as ex:
            fe, fh, fs = ex.submit(build_engine), ex.submit(build_harness), ex.submit(build_harness, True)
            e, (h, _), (g, _) = fe.result(), fh.result(), fs.result()
        if e or h:
            die(e or h)
        if g:
            print('store build failed (only C37 needs it, and will say so):\n' + g)
        print(f'built in {time.time() - t0:.0f}s')
        return
    store = prop in STORE
    VF = os.path.join(target(store), 'release', 'vfmain')
    if a.nobuild:
        bc = sorted(glob.glob(target(store) + '/release/deps/vfmain-*.lto.input.bc'), key=os.path.getmtime)[-1]
    else:
        with ThreadPoolExecutor() as ex:
            fe, fh = ex.submit(build_engine), ex.submit(build_harness, store)
            ee, (eh, bc) = fe.result(), fh.result()
        if ee:
            die('engine build failed:\n' + ee)
        if eh:
            die('harness/repo build failed:\n' + eh)
    t_build = time.time() - t0
    ents = {e: d for e, d in entries().items() if e.startswith('h_' + prop.lower() + '_')}
    if tier == 'quick':
        ents = {e: d for e, d in ents.items() if not e.endswith('_t')}
    if a.only:
        ents = {e: d for e, d in ents.items() if e in a.only.split(',')}
    if not ents:
        die('no harness entries for ' + prop)
    out = os.path.join(B, f'out_{prop}_{tier}')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    budget = a.budget or (600 if tier == 'quick' else 5400)
    cmd = [B + '/symir', '--bc', bc, '--entry', ','.join(ents), '--out', out, '--time', str(budget), '-j', str(NCPU), '--samples', '40', '--dumps', '3',
           '--limit', '400000000', '--stride', str(89 + seed * 12)]
    for p in params:
        cmd += ['--param', str(p)]
    eng = run(cmd, timeout=budget + 200)
    problems, viols, tot, per = [], [], {}, {}
    funcs, lines, samples, smt = set(), set(), [], []
    validated = 0
    for e, (bounds, reach) in ents.items():
        sp = f'{out}/{e}/summary.json'
        if not os.path.exists(sp):
            problems.append(f'{e}: no result from the engine')
            continue
        s = json.load(open(sp))
        funcs.update(s['functions'])
        lines.update(s['lines'])
        for k in ('paths', 'dead_paths', 'forks', 'instructions', 'checks', 'checks_z3', 'violations', 'q_domain', 'q_audit', 'q_cache', 'q_model', 'q_z3', 'q_z3_sat', 'q_z3_unsat', 'q_unknown', 'z3_s'):
            tot[k] = tot.get(k, 0) + s[k]
        tot['max_constraints'] = max(tot.get('max_constraints', 0), s['max_constraints'])
        per[e] = {'bounds': bounds, 'paths': s['paths'], 'branch_decisions': s['forks'], 'assertions': s['checks'], 'run_s': s['run_s'], 'z3_queries': s['q_z3'], 'z3_s': s['z3_s'], 'reached': s['reach']}
        for vf in sorted(glob.glob(f'{out}/{e}/viol_*.json')):
            try:
                v = json.loads(open(vf, errors='replace').read())
            except ValueError:
                problems.append(f'{e}: unreadable violation record')
                continue
            v['entry'] = e
            viols.append(v)
        if s['incomplete'] or s['crash']:
            problems.append(f"{e}: exploration incomplete ({s['inc_reason'] or 'engine process ended early'})")
        for r in reach:
            if str(r) not in s['reach']:
                problems.append(f'{e}: witness {r} never reached (vacuous harness)')
        sl = f'{out}/{e}/samples.jsonl'
        if os.path.exists(sl):
            ss = [json.loads(l) for l in open(sl)]
            samples += [dict(x, entry=e) for x in ss]
        smt += glob.glob(f'{out}/{e}/q*.smt2')

    # ---- translator validation: the same input must take the native build to the same observations
    def val(x):
        rc, o = native(x['entry'], x['input'], params)
        m = re.search(r'END 0 ok digest=([0-9a-f]+)', o)
        return x, rc == 0 and bool(m) and m.group(1) == x['digest'], rc, o
    cap = 400 if tier == 'quick' else 2000
    if len(samples) > cap:
        st = len(samples) / cap
        samples = [samples[int(i * st)] for i in range(cap)]
    with ThreadPoolExecutor(NCPU) as ex:
        for x, ok, rc, o in ex.map(val, samples):
            if ok:
                validated += 1
            else:
                problems.append(f"{x['entry']}: engine and native build disagree on input {x['input']} (native {rc}: {o[-200:].strip()})")

    # ---- solver cross-check
    cross = {'queries': 0, 'agree': 0, 'no_answer': 0}

    def xs(args):
        f, solver = args
        want = 'unsat' if f.endswith('_unsat.smt2') else 'sat'
        c = {'cvc5': ['cvc5', '--tlimit=20000', f], 'z3-new': ['z3-new', '-T:20', f]}[solver]
        try:
            r = subprocess.run(c, capture_output=True, text=True, timeout=40).stdout.split()
        except (subprocess.TimeoutExpired, FileNotFoundError):
            r = []
        got = r[0] if r else ''
        return f, solver, want, got
    smt = smt[:16] if tier == 'quick' else smt[:100]
    with ThreadPoolExecutor(NCPU) as ex:
        for f, sv, want, got in ex.map(xs, [(f, s) for f in smt for s in ('cvc5', 'z3-new')]):
            cross['queries'] += 1
            if got == want:
                cross['agree'] += 1
            elif got in ('sat', 'unsat'):
                problems.append(f'{sv} answers {got} on {f}, engine solver said {want}')
            else:
                cross['no_answer'] += 1

    # ---- replay
    kf = known_findings()
    new, known, nrep = [], {}, 0
    rdir = f'{V}/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f'{rdir}/{prop}_*'):
        os.unlink(f)
    for i, v in enumerate(viols):
        rc, o = native(v['entry'], v['input'], params, 30)
        if not reproduced(v, rc):
            problems.append(f"{v['entry']}: counterexample for {v['check']} ({v['msg']}) does not reproduce natively (rc {rc}) input {v['input']}: {o[-300:]}")
            continue
        nrep += 1
        k = next((k for k in kf['known'] if k['property'] == prop and k['entry'] == v['entry'] and k['check'] == v['check'] and k.get('note', '') in o), None)
        if k:
            known.setdefault(k['what'], 0)
            known[k['what']] += 1
            continue
        p = f'{rdir}/{prop}_{i}.json'
        json.dump(dict(v, property=prop, params=params, native_rc=rc, native_output=o[-3000:], where=' < '.join(demangle(v['where'].split(' < '))),
                       command=f"{VF} {v['entry']} {v['input']} {' '.join(map(str, params))} -v"), open(p, 'w'), indent=1)
        new.append((v, p, o))
    sf = [f for f in demangle(sorted(funcs)) if 'sieve::' in f and 'vfh::' not in f]
    rl = sorted({l.split(':')[0] for l in lines if '/repo/src' in l or l.startswith('src/')})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 1), 'violations': len(new),
        'assumptions': ['symbolic execution of the LLVM IR rustc produces for /repo (opt-level 1, overflow checks and debug assertions on); bounds as listed per entry',
                        'ahash is replaced by a hasher that ignores string contents; clock is fixed by the harness; allocation never fails',
                        'byte-domain verdicts (constraints over one byte variable) are decided by an exact 256-value table and audited by z3 on a sample'],
        'coverage': {
            'states': tot.get('paths', 0), 'transitions': tot.get('forks', 0), 'traces_validated_against_impl': validated,
            'samples': [{'entry': x['entry'], 'input': x['input']} for x in samples[:12]],
            'exhaustive': not problems,
            'explanation': 'states = symbolic paths run to the end (each stands for all inputs satisfying its path condition); transitions = two-way branch decisions both of whose sides are satisfiable',
            'entries': per, 'functions_encoded': len(sf), 'functions': sf[:400], 'source_files': rl, 'source_lines_reached': len(lines),
            'queries': tot, 'solver_cross_check': cross, 'counterexamples_replayed': nrep, 'known_findings': known, 'build_s': round(t_build, 1),
            'problems': problems[:20],
        },
    }
    json.dump(ev, open(evf, 'w'), indent=1)
    for w, n in known.items():
        print(f'KNOWN-FINDING: property={prop} {w}')
    print(f"{prop} {tier}: {tot.get('paths', 0)} paths, {tot.get('checks', 0)} assertions, {tot.get('q_z3', 0)} z3 queries ({tot.get('z3_s', 0):.1f}s), {validated} paths replayed natively, build {t_build:.0f}s, total {time.time() - t0:.0f}s")
    for e, p in sorted(per.items(), key=lambda x: -x[1]['run_s'])[:4]:
        print(f"   {e}: {p['paths']} paths {p['run_s']}s")
    for p in problems[:12]:
        print('PROBLEM: ' + p[:700])
    if new:
        seen = set()
        for v, p, o in new:
            print(f"VIOLATION property={prop} replay={p}")
            if (v['entry'], v['check']) not in seen:
                seen.add((v['entry'], v['check']))
                print(f"   {v['entry']} {v['check']}: {v['msg']} | " + ' '.join(x for x in o.split('\n') if x.startswith(('note:', 'CHECK', 'thread')) or 'panicked' in x)[-900:])
        sys.exit(1)
    if problems:
        print(eng.stdout[-1500:])
        sys.exit(2)
    sys.exit(0)


main()
