#!/usr/bin/env python3
"""vx: put the contracts of /verif/contracts around the code that is in /repo NOW and have Verus check it.

A contract file is Verus text in which every `//@ code FILE ITEM ... //@ end` block holds the token text of one item of
/repo/src with ghost text between « and ». On every run the item is read from /repo, comments, attributes and visibility
are dropped, the listed token rewrites (`//@ rw`) are applied, the ghost text is re-anchored by aligning tokens, and the
result (never the template's copy of the code) goes to Verus.
"""
import sys, os, re, json, subprocess, time, difflib, tempfile, hashlib, shlex
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rtok import lex, find_items, rewrite, parse_pat, strip_attrs_vis, match_close, OPEN, LexError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
CON = os.path.join(ROOT, 'contracts')


class Block:
    def __init__(self, file, item, opts, line):
        self.file, self.item, self.opts, self.tline = file, item, opts, line
        self.text = ''
        self.rules = []
        self.tags = [x for x in opts.get('tags', '').split(',') if x]
        self.status = None
        self.notes = []

    @property
    def name(self):
        return self.item

    def prepare(self):
        """split template text into real tokens and ghost segments"""
        parts = re.split(r'(«|»)', self.text)
        ghost, depth = [], 0
        self.segs = []       # (kind, text)
        for p in parts:
            if p == '«':
                depth += 1
                assert depth == 1, (self.item, 'nested «')
            elif p == '»':
                depth -= 1
                assert depth == 0, (self.item, 'stray »')
            elif p:
                self.segs.append(('g' if depth else 'r', p))
        toks, ghosts = [], []   # ghosts: (gap index, text)
        for k, p in self.segs:
            if k == 'g':
                ghosts.append((len(toks), p))
            else:
                toks += [x[0] for x in lex(p)]
        self.ttoks, self.ghosts = toks, ghosts

    def body_open(self, toks):
        """index of the token opening the body"""
        i = 0
        while i < len(toks):
            if toks[i] in '([':
                i = match_close(toks, i)
            elif toks[i] == '{':
                return i
            i += 1
        return None


def lemmas_elsewhere(txt):
    """lemmas of a `use`d file are proved in the unit that includes it; here only their statements count"""
    out, i = [], 0
    for m in re.finditer(r'(?m)^[ \t]*(?:broadcast )?proof fn \w+', txt):
        j, d = m.end(), 0
        while j < len(txt) and not (d == 0 and txt[j] in ';{'):
            d += txt[j] in '([' or -(txt[j] in ')]')
            j += 1
        if j < len(txt) and txt[j] == '{' and 'external_body' not in txt[max(0, m.start() - 60):m.start()]:
            out.append(txt[i:m.start()] + '#[verifier::external_body] /*proved elsewhere*/\n')
            i = m.start()
    return ''.join(out) + txt[i:]


# files every unit includes and proves for itself
SHARED = ('std_range.rs', 'asserts.rs', 'deps.rs', 'base.rs', 'inv.rs', 'vxiter.rs')
LOOPK = ('for', 'while', 'loop')


def loops(t):
    # `for` in `impl Trait for` or `for<'a>` never occurs inside the bodies used here
    return [x for x in t if x in LOOPK]


class Unit:
    def __init__(self, name):
        self.name = name
        self.parts = []      # str | Block
        self.rules = []      # (text, pat, rep)
        self.opts = {}
        self.used_files, self.own_files = set(), set()
        self.load(os.path.join(CON, name + '.rs'))
        # opt opaque=f,g: this unit unfolds these spec functions only where it says reveal
        for f in filter(None, self.opts.get('opaque', '').split(',')):
            self.parts = [re.sub(r'(?m)^( *)(spec fn %s\b)' % f, r'\1#[verifier::opaque] \2', x) if isinstance(x, str) else x for x in self.parts]
        self.blocks = [b for b in self.parts if isinstance(b, Block)]
        for b in self.blocks:
            o = b.body_open(b.ttoks)
            b.isfn = 'fn' in (b.ttoks if o is None else b.ttoks[:o])
            b.used = b.used and b.isfn and o is not None

    def load(self, path, used=False):
        cur, blk = [], None
        text = (lambda c: lemmas_elsewhere(''.join(c))) if used else ''.join
        (self.used_files if used else self.own_files).add(os.path.basename(path))
        for ln, line in enumerate(open(path, encoding='utf8'), 1):
            s = line.strip()
            if s.startswith('//@ '):
                w = s[4:].split(None, 1)
                d, arg = w[0], (w[1] if len(w) > 1 else '')
                if d in ('include', 'use'):
                    # use: the bodies are verified in another unit, here only their contracts count
                    self.parts.append(text(cur))
                    cur = []
                    self.load(os.path.join(CON, arg), used or d == 'use')
                elif d == 'opt':
                    k, v = arg.split('=', 1)
                    self.opts[k] = v
                elif d == 'rw':
                    a, b = (arg + ' ').split(' ==> ')
                    r = (arg, parse_pat(a), parse_pat(b))
                    (blk.rules if blk else self.rules).append(r)
                elif d == 'code':
                    assert blk is None, (path, ln)
                    self.parts.append(text(cur))
                    cur = []
                    a = shlex.split(arg)
                    opts, pos = {}, []
                    for x in a:
                        if re.match(r'^[a-z_]+=', x):
                            k, v = x.split('=', 1)
                            opts[k] = v
                        else:
                            pos.append(x)
                    blk = Block(pos[0], pos[1], opts, ln)
                    blk.used = used
                elif d == 'end':
                    blk.text = ''.join(cur)
                    cur = []
                    blk.prepare()
                    self.parts.append(blk)
                    blk = None
                else:
                    raise SystemExit('%s:%d: unknown directive %s' % (path, ln, d))
            else:
                cur.append(line)
        assert blk is None, (path, blk and blk.item)
        self.parts.append(text(cur))

    # ------------------------------------------------------------------ extraction
    def extract(self):
        cache = {}
        self.rw_used = {}
        for b in self.blocks:
            b.demoted = None
            b.changed = False
            if b.file not in cache:
                try:
                    cache[b.file] = find_items(open(os.path.join(REPO, b.file), encoding='utf8').read())
                except (OSError, LexError, IndexError) as e:
                    cache[b.file] = {}
                    b.notes.append('cannot read %s: %s' % (b.file, e))
            c = cache[b.file].get(b.item, [])
            nth = int(b.opts.get('nth', '0'))
            if len(c) <= nth or (len(c) > 1 and 'nth' not in b.opts):
                b.rtoks = None
                b.demoted = 'the item is no longer found once in %s (found %d)' % (b.file, len(c))
                continue
            rules = self.rules + b.rules
            t, used = rewrite(c[nth], [(r[1], r[2]) for r in rules])
            for k, n in used.items():
                self.rw_used[rules[k][0]] = self.rw_used.get(rules[k][0], 0) + n
            b.rtoks = t
            b.changed = t != strip_attrs_vis(b.ttoks)

    def contract_only(self, b):
        """the function with its contract and without its body"""
        T = b.ttoks
        o = b.body_open(T)
        if o is None or not b.isfn:
            return ''.join(p for _, p in b.segs)      # a type: keep the template's
        n, out = 0, []
        for k, p in b.segs:
            if k == 'g':
                out.append(p)
                continue
            tk = lex(p)
            if n + len(tk) <= o:
                out.append(p)
                n += len(tk)
            else:
                out.append(p[:tk[o - n][1]])
                break
        s = ''.join(out)
        s = s.replace('#[verifier::loop_isolation(false)]', '').replace('#[verifier::spinoff_prover]', '')
        s = re.sub(r'#\[verifier::rlimit\([^)]*\)\]', '', s)
        return '#[verifier::external_body]\n' + s + '{ unimplemented!() }\n'

    def emit_block(self, b, probe=False):
        """-> text, or sets b.demoted"""
        if b.used:
            return self.contract_only(b)
        if not b.changed and not b.demoted:
            if not probe:
                return ''.join(p for _, p in b.segs)
        T, R = b.ttoks, b.rtoks
        if not b.demoted:
            b.lost = []
            sm = difflib.SequenceMatcher(None, T, R, autojunk=False)
            m = {}
            for x, y, n in sm.get_matching_blocks():
                for k in range(n):
                    m[x + k] = y + k
            ins = {}
            b.same_loops = loops(T) == loops(R)
            b.ratio = sm.ratio()
            for gap, g in b.ghosts:
                if gap > 0 and (gap - 1) in m and gap in m and m[gap] == m[gap - 1] + 1:
                    pos = m[gap]
                elif gap == 0:
                    pos = 0
                elif (gap - 1) in m:
                    pos = m[gap - 1] + 1
                    b.soft = True
                elif gap in m:
                    pos = m[gap]
                    b.soft = True
                else:
                    b.lost.append(g.strip()[:60])
                    continue
                ins.setdefault(pos, []).append(g)
            if b.lost:
                b.demoted = 'ghost text lost its anchor in the changed code: ' + b.lost[0]
        if b.demoted:
            return self.contract_only(b)
        o = b.body_open(R) if probe else None
        out, prev = [], ''
        for i in range(len(R) + 1):
            for g in ins.get(i, []):
                out.append(' ' + g + ' ')
            if i < len(R):
                out.append(R[i])
                if probe and i == o and 'fn' in R[:o]:
                    out.append(' proof { assert(false); } ')
                out.append('\n' if R[i] in (';', '{', '}', ',') and R[i + 1:i + 2] not in ([';'], [','], [')'], ['?'], ['.']) else ' ')
        return ''.join(out) + '\n'

    def emit(self, probe=False):
        lines, self.map = [], []
        text = ''
        for p in self.parts:
            if isinstance(p, Block):
                s = self.emit_block(p, probe)
                a = text.count('\n') + 1
                text += s
                if not text.endswith('\n'):
                    text += '\n'
                self.map.append((a, text.count('\n'), p))
            else:
                text += p
                if not text.endswith('\n'):
                    text += '\n'
        self.text = text
        self.lines = text.split('\n')
        return text

    def block_at(self, line):
        for a, z, b in self.map:
            if a <= line <= z:
                return b
        return None

    # ------------------------------------------------------------------ running
    def verus(self, path, rlimit, extra=()):
        cmd = ['verus', os.path.basename(path), '--output-json', '--time-expanded', '--error-format=json', '--no-report-long-running',
               '--multiple-errors', '4', '--rlimit', str(rlimit), '--num-threads', '8'] + list(extra)
        t0 = time.time()
        p = subprocess.run(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=float(self.opts.get('timeout', '600')))
        self.cmd = ' '.join(cmd)
        self.wall = time.time() - t0
        try:
            js = json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError:
            js = {}
        diags = []
        for l in p.stderr.splitlines():
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and d.get('spans') is not None:
                    diags.append(d)
        return p.returncode, js, diags, p.stderr

    def run(self, outdir, rlimit=None, probe=False, extra=()):
        rlimit = rlimit or float(self.opts.get('rlimit', '40'))
        os.makedirs(outdir, exist_ok=True)
        self.extract()
        path = os.path.join(outdir, self.name + '.rs')
        for attempt in range(12):
            for b in self.blocks:
                b.fails = []
            open(path, 'w', encoding='utf8').write(self.emit(probe))
            try:
                rc, js, diags, err = self.verus(path, rlimit, extra)
            except subprocess.TimeoutExpired:
                return {'unit': self.name, 'broken': 'Verus did not finish in %s s' % self.opts.get('timeout', '600')}
            vr = js.get('verification-results', {})
            # anything that stops Verus before verification (unsupported construct, type error, lifetime error, ...)
            soft = ('precondition not satisfied', 'precondition not met', 'postcondition not satisfied', 'assertion failed', 'invariant not satisfied',
                    'possible arithmetic', 'possible division', 'recommendation', 'loop invariant', 'decreases not satisfied',
                    'could not prove termination', 'Resource limit', 'unable to prove', 'cannot show', 'bit shift', 'possible',
                    'split precondition failure', 'split postcondition failure', 'split assertion failure', 'assert_by',
                    'requires not satisfied', 'fails to satisfy', 'constructed value may fail', 'while loop: Resource', 'function body check')
            hard = [d for d in diags if not d['message'].startswith('aborting due') and not any(s in d['message'] for s in soft)]
            ran = 'verified' in vr and not vr.get('encountered-vir-error') and (vr.get('success') or vr.get('errors', 0) > 0)
            if hard or not ran:
                if os.environ.get('VX_DEBUG'):
                    print('\n'.join(d['rendered'] for d in hard), file=sys.stderr)
                bad = set()
                for d in hard:
                    for s in d['spans']:
                        b = self.block_at(s['line_start'])
                        if b and not b.demoted:
                            b.demoted = 'outside what Verus accepts: ' + d['message'][:160]
                            bad.add(b)
                            break
                if not bad:
                    m = hard[0]['rendered'] if hard else err[-800:]
                    return {'unit': self.name, 'broken': 'Verus rejected the file: ' + m[:1500]}
                continue
            break
        else:
            return {'unit': self.name, 'broken': 'too many functions had to be taken out'}
        other = []
        for d in diags:
            if d['message'].startswith('aborting due'):
                continue
            prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
            b = None
            # the block in which the failing obligation arises is the one with the non-clause span
            cand = [s for s in d['spans'] if 'failed precondition' not in (s.get('label') or '')
                    and 'failed this postcondition' not in (s.get('label') or '')] or d['spans']
            for s in cand + d['spans']:
                b = self.block_at(s['line_start'])
                if b:
                    break
            if d['message'].startswith('postcondition') and not b:
                for s in d['spans']:
                    b = b or self.block_at(s['line_start'])
            cl = prim[0] if prim else None
            for s in d['spans']:
                if 'failed' in (s.get('label') or ''):
                    cl = s
            ltxt = self.lines[cl['line_start'] - 1] if cl and cl['line_start'] <= len(self.lines) else ''
            tags = sorted(set(re.findall(r'C\d\d', ' '.join(re.findall(r'/\*([^*]*)\*/', ltxt)))))
            rec = {'message': d['message'], 'clause': ' '.join(x['text'].strip() for x in (cl or {}).get('text', []))[:400],
                   'tags': tags, 'rendered': d['rendered'], 'line': cl['line_start'] if cl else 0}
            if b is None:
                other.append(rec)
            else:
                b.fails.append(rec)
        times = {}
        for mt in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in mt.get('function-breakdown', []):
                times[f['function']] = times.get(f['function'], 0) + f['time-micros'] / 1e6
        res = {'unit': self.name, 'broken': None, 'verified': vr.get('verified', 0), 'errors': vr.get('errors', 0),
               'wall': round(self.wall, 2), 'smt_s': round(js.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000, 2),
               'verus': js.get('verus', {}).get('version'), 'cmd': self.cmd, 'other': other, 'rewrites': dict(self.rw_used),
               'times': times, 'blocks': [], 'file': path}
        for b in self.blocks:
            kind = 'fn' if b.isfn and b.body_open(b.ttoks) is not None else 'type'
            if b.used:
                continue
            ext = any('external_body' in g for _, g in b.ghosts)
            st = 'demoted' if b.demoted else 'assumed' if ext else 'proved'
            if kind == 'type':
                st = 'demoted' if b.demoted or b.changed and False else 'type'
            if b.fails:
                st = 'rlimit' if all('Resource limit' in f['message'] or 'rlimit' in f['message'] for f in b.fails) else 'failed'
            res['blocks'].append({'file': b.file, 'item': b.item, 'tags': b.tags, 'status': st, 'reason': b.demoted,
                                  'changed': b.changed, 'same_loops': getattr(b, 'same_loops', True), 'fails': b.fails,
                                  'assumes': sum(len(re.findall(r'\bassume\s*\(|\badmit\s*\(', g)) for _, g in b.ghosts),
                                  'clauses': sum(len(re.findall(r'\bensures\b|\binvariant\b|\bassert\b|\brequires\b', g)) for _, g in b.ghosts),
                                  'nodecreases': any('exec_allows_no_decreases_clause' in g for _, g in b.ghosts)})
        if other:
            res['broken'] = None
        return res


def trusted(unit):
    """mechanical list of what the unit leaves unchecked"""
    out = []
    txt = '\n'.join(p if isinstance(p, str) else ''.join(g for _, g in p.ghosts) for p in unit.parts)
    txt = txt.replace('#[verifier::external_body] /*proved elsewhere*/', '')
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*([^{;]*)', txt):
        out.append('external_body: ' + ' '.join(m.group(1).split())[:110])
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*)\]', txt):
        out.append('assume_specification: ' + ' '.join(m.group(1).split())[:110])
    for m in re.finditer(r'\baxiom fn (\w+)', txt):
        out.append('axiom: ' + m.group(1))
    for m in re.finditer(r'proof fn (law_\w+)', txt):
        out.append('trait law required of every implementation: ' + m.group(1))
    for m in re.finditer(r'^\s*global (size_of [^;]*);', txt, re.M):
        out.append('platform: ' + m.group(1))
    n = len(re.findall(r'\bassume\s*\(|\badmit\s*\(', txt))
    if n:
        out.append('%d assume/admit statements' % n)
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('units', nargs='*')
    ap.add_argument('--out', default='/tmp/vx')
    ap.add_argument('--rlimit', type=float)
    ap.add_argument('--probe', action='store_true')
    ap.add_argument('--json', action='store_true')
    ap.add_argument('-f', '--function')
    ap.add_argument('--skel', nargs=2, help='FILE ITEM: print the item after rewriting with the rules of the unit')
    a = ap.parse_args()
    if a.skel:
        u = Unit(a.units[0])
        its = find_items(open(os.path.join(REPO, a.skel[0])).read())
        for t in its.get(a.skel[1], []):
            t, _ = rewrite(t, [(r[1], r[2]) for r in u.rules])
            print(' '.join(t))
        if a.skel[1] not in its:
            print('\n'.join(sorted(its)))
        return
    for n in a.units:
        u = Unit(n)
        extra = ['--verify-root', '--verify-function', a.function] if a.function else []
        r = u.run(a.out, a.rlimit, a.probe, extra)
        if a.json:
            print(json.dumps(r, indent=1))
            continue
        if r['broken']:
            print(n, 'BROKEN', r['broken'])
            continue
        print('%s: verified %d errors %d wall %.1fs smt %.1fs' % (n, r['verified'], r['errors'], r['wall'], r['smt_s']))
        for o in r['other']:
            print('  OUTSIDE:', o['rendered'])
        for b in r['blocks']:
            if b['status'] not in ('proved', 'type') or b['changed']:
                print('  %-9s %s %s%s %s' % (b['status'], b['file'], b['item'], ' (changed)' if b['changed'] else '', b['reason'] or ''))
            for f in b['fails']:
                print('     ', f['tags'], f['rendered'], f['clause'])
        slow = sorted(r['times'].items(), key=lambda x: -x[1])[:6]
        print('  slow:', ', '.join('%s %.1fs' % (k.split('::', 1)[-1], v) for k, v in slow))


if __name__ == '__main__':
    main()
