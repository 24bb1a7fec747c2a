#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current source.

1. every Verus unit that carries contracts for PROP is regenerated from /repo's source and verified (tools/vx.py);
2. the contracts are also executed on the real code for a bounded, seeded set of histories (harness/): the stand-in for
   functions that are not (or no longer) within the verifier's reach, and the search for a failing input when an
   obligation fails.
Exit 0: nothing broken. Exit 1 with a VIOLATION line: an obligation that the contracts claim fails, or an input breaks it.
"""
import sys, os, json, time, subprocess, shutil, tempfile, struct, re, concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx

ROOT = vx.ROOT
HAR = os.path.join(ROOT, 'harness')
UNITS = sorted(f[:-3] for f in os.listdir(vx.CON) if f.endswith('.rs') and f.startswith('u_'))
CASES = {'C01': 30000, 'C02': 40000, 'C14': 20000}
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def mem_limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def build_harness(log):
    env = dict(os.environ, RUSTFLAGS='--cfg generic_btree_verif', CARGO_NET_OFFLINE='true')
    env.pop('RUSTUP_TOOLCHAIN', None)
    try:
        p = subprocess.run(['cargo', 'build', '--offline', '--release'], cwd=HAR, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return 'the harness build did not finish'
    open(log, 'w').write(p.stdout)
    if p.returncode:
        return 'the harness does not build: ' + ' '.join(x for x in p.stdout.splitlines() if x.startswith('error'))[:400]
    return None


def harness_run(prop, seed, cases, tmp, out, timeout):
    """-> (stats, violation text or None, replay path or None)"""
    exe = os.path.join(HAR, 'target/release/gbt-harness')
    try:
        p = subprocess.run([exe, 'run', prop, str(seed), str(cases), tmp, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, preexec_fn=mem_limit)
    except subprocess.TimeoutExpired:
        return None, None, None
    st = None
    for l in p.stdout.splitlines():
        if l.startswith('STATS '):
            st = json.loads(l[6:])
        if l.startswith('VIOL '):
            w = l.split(None, 2)
            return st, w[2], w[1]
    if p.returncode in (0,):
        return st, None, None
    # the process died (stack overflow, abort, out of memory): find the case that kills it alone
    for w in range(8):
        try:
            b = open(os.path.join(tmp, '%d.j' % w), 'rb').read(16)
        except OSError:
            continue
        if len(b) >= 8:
            i = struct.unpack('<Q', b[:8])[0]
            if not i:
                continue
            i -= 1
            try:
                q = subprocess.run([exe, 'run', prop, str(seed), str(i + 1), tmp, out, str(i)], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, timeout=120, preexec_fn=mem_limit)
                dead = q.returncode not in (0, 1)
            except subprocess.TimeoutExpired:
                dead = True
            if dead:
                path = os.path.join(out, prop + '.case')
                open(path, 'w').write('# the process is killed by this history (e.g. unbounded recursion)\n'
                                      '# run: gbt-harness run %s %d %d /tmp /tmp %d\n# %s\n' % (prop, seed, i + 1, i, p.stderr[-400:].replace('\n', ' ')))
                return st, 'the process is killed by case %d: %s' % (i, p.stderr.strip().splitlines()[-1:] or ''), path
    return st, None, None


def relevant(b, prop):
    return prop in b['tags'] or any(prop in f['tags'] for f in b['fails'])


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    out = os.path.join(ROOT, 'out', prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tmp = tempfile.mkdtemp(prefix='gbt-verif-')
    try:
        return run(prop, tier, seed, out, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, out, tmp):
    import threading
    hb = {}
    th = threading.Thread(target=lambda: hb.setdefault('err', build_harness(os.path.join(out, 'build.log'))))
    th.start()

    # ---------------------------------------------------------------- contracts
    units, notes, assumptions, trusted, cmds = [], [], [], [], []
    proved, failed, undecided, standin, assumed = [], [], [], [], []
    smt, obligations, discharged, clauses, ver = 0.0, 0, 0, 0, None
    rewrites = {}
    uu = {n: vx.Unit(n) for n in UNITS}
    owner = {f: n for n in UNITS for f in uu[n].own_files if f not in vx.SHARED}
    mine_of = {n: [b for b in u.blocks if not b.used and (prop in b.tags or any(prop in g for _, g in b.ghosts))] for n, u in uu.items()}
    # the units with contracts of this property, and those whose contracts and lemmas they rely on
    need, todo = set(), [n for n in UNITS if mine_of[n]]
    while todo:
        n = todo.pop()
        if n not in need:
            need.add(n)
            todo += [owner[f] for f in uu[n].used_files if f in owner]
    def verify(n):
        return n, uu[n], mine_of[n], uu[n].run(os.path.join(tmp, 'vx'))
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        done = list(ex.map(verify, sorted(need)))
    relied = []
    for n, u, mine, r in done:
        if not mine:
            relied.append(n)
            bad = r['broken'] or [b['item'] for b in r['blocks'] if b['status'] in ('failed', 'rlimit', 'demoted')] + [o['clause'][:80] for o in r['other']]
            if bad:
                notes.append('contracts relied on, of unit %s (other properties), not discharged: %s' % (n, str(bad)[:300]))
            smt += r.get('smt_s', 0.0)
            continue
        units.append(n)
        trusted += vx.trusted(u)
        if r['broken']:
            notes.append('unit %s undecided: %s' % (n, r['broken'][:300]))
            for b in mine:
                undecided.append('%s %s' % (b.file, b.item))
            continue
        ver = r['verus']
        cmds.append(r['cmd'])
        smt += r['smt_s']
        obligations += r['verified'] + r['errors']
        discharged += r['verified']
        rewrites.update(r['rewrites'])
        for o in r['other']:
            notes.append('an obligation outside the code fails (%s): %s' % (n, o['clause'][:120]))
        for b in r['blocks']:
            if not relevant(b, prop):
                continue
            nm = '%s %s' % (b['file'], b['item'])
            clauses += b['clauses']
            if b['nodecreases']:
                assumptions.append('termination of %s is not proved' % nm)
            if b['assumes']:
                assumptions.append('%d assume statements inside %s' % (b['assumes'], nm))
            if b['status'] == 'proved':
                proved.append(nm)
            elif b['status'] == 'assumed':
                assumed.append(nm)
            elif b['status'] == 'demoted':
                standin.append(nm)
                notes.append('%s: %s; bounded stand-in only on this run' % (nm, b['reason']))
            elif b['status'] == 'rlimit':
                undecided.append(nm)
                notes.append('%s: the solver gave up (resource limit); bounded stand-in only on this run' % nm)
            elif b['status'] == 'failed':
                fs = [f for f in b['fails'] if prop in f['tags'] or (not f['tags'] and prop in b['tags'])]
                if not fs:
                    proved.append(nm)      # what fails there belongs to another property
                    continue
                # a proof script that no longer fits the code decides nothing
                if b['changed'] and not b['same_loops']:
                    undecided.append(nm)
                    notes.append('%s: the loops of the function changed, its invariants no longer fit (%s)' % (nm, fs[0]['clause'][:100]))
                else:
                    failed.append((nm, fs))
        if tier == 'thorough':
            # vacuity: with assert(false) put first, every body must fail
            v = vx.Unit(n)
            rp = v.run(os.path.join(tmp, 'vxp'), probe=True)
            if not rp['broken']:
                vac = [b['item'] for b in rp['blocks'] if b['status'] == 'proved' and prop in b['tags']]
                notes.append('vacuity probe %s: %d bodies fail on assert(false) as they must, %d do not %s'
                             % (n, sum(b['status'] == 'failed' for b in rp['blocks']), len(vac), vac))

    # ---------------------------------------------------------------- the real code
    th.join()
    viol, replay, stats, hnote = None, None, [], None
    if hb.get('err'):
        hnote = hb['err']
        notes.append(hnote)
    else:
        cases = CASES.get(prop, 6000)
        runs = [(seed, cases)]
        if tier == 'thorough':
            runs = [(seed + 1000 * k, cases * 4) for k in range(10)]
        if failed or standin or undecided:
            runs += [(seed + 7919 * k, cases * 2) for k in range(1, 5)]
        for s, c in runs:
            if time.time() - T0 > (600 if tier == 'quick' else 3000):
                notes.append('stopped after the time budget')
                break
            st, v, rp = harness_run(prop, s, c, tmp, out, 400)
            if st:
                stats.append(st)
            if v:
                viol, replay = v, rp
                break
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'other')}
    evals = sum(s['cases'] for s in stats)
    ops = {}
    for s in stats:
        for k, v in s['ops'].items():
            ops[k] = ops.get(k, 0) + v
    samples = []
    if evals:
        samples = ['history %d of seed %d, i.e. gbt-harness run %s %d %d DIR DIR %d' % (i, seed, prop, seed, i + 1, i) for i in (0, 1)]
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': ' ; '.join(cmds) or 'none',
        'trusted_base': sorted(set(trusted)),
        'functions_under_contract': sorted(proved),
        'functions_assumed': sorted(assumed),
        'units_relied_on_and_verified_in_this_run': relied,
        'functions_failing': [n for n, _ in failed],
        'functions_bounded_only_on_this_run': sorted(standin + undecided),
        'specification_clauses_of_these_functions': clauses,
        'back_end': 'Verus %s with its Z3' % ver if ver else 'none', 'solver_s': round(smt, 2),
        'extraction_rewrites_applied': rewrites,
        'evaluations': evals,
        'distinct_nontrivial': evals,
        'rule': 'bounded stand-in (never counted as proved): seeded histories of public operations on the real code, each step '
                'compared with the contracts (content, structure dump, summaries, handles); every history has its own '
                'random records and at least three operations',
        'samples': samples,
        'operations_executed': ops,
        'explanation': NOTE.get(prop, ''),
        'notes': notes,
    }
    ev['coverage'] = cov
    ev['assumptions'] = sorted(set(assumptions + GENERAL))
    code = 0
    line = None
    if viol:
        code = 1
        line = 'VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay, ROOT))
        say('failing input: ' + viol[:600])
        for n, fs in failed:
            say('failing obligation in %s: %s: %s' % (n, fs[0]['message'], fs[0]['clause'][:200]))
    elif failed:
        code = 1
        rp = os.path.join(out, 'obligations.txt')
        with open(rp, 'w') as f:
            for n, fs in failed:
                for x in fs:
                    f.write('failing obligation in %s\n%s\n' % (n, x['rendered']))
            f.write('\nno failing input found in %d histories\n' % evals)
        for n, fs in failed:
            say('failing obligation in %s: %s: %s' % (n, fs[0]['message'], fs[0]['clause'][:200]))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, os.path.relpath(rp, ROOT))
    if hb.get('err') and not code and (not proved or standin or undecided):
        code = 2        # neither the verifier nor the stand-in could look at the code: no answer
        say('no answer: ' + hnote)
    ev['violations'] = 1 if code == 1 else 0
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for n in notes:
        say('note: ' + n[:300])
    say('%s: %d/%d obligations, %d functions under contract, %d failing; %d histories; %.1f s'
        % (prop, discharged, obligations, len(proved), len(failed), evals, time.time() - T0))
    if line:
        say(line)
    return code


GENERAL = [
    'thunderdome::Arena, heapless::Vec and fxhash maps behave as their assumed contracts in /verif/contracts say',
    'Verus, vstd and Z3 are sound; the Rust compiler agrees with Verus on the meaning of the extracted text',
    'the token rewrites listed under extraction_rewrites_applied keep the meaning of the code',
]
try:
    _m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    LEVEL = {c['property']: c['level'] for c in _m['checks']}
    NOTE = {c['property']: c['level_note'] for c in _m['checks']}
except (OSError, ValueError):
    LEVEL, NOTE = {}, {}

if __name__ == '__main__':
    sys.exit(main())
