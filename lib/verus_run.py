"""Renders one unit from /repo, runs Verus on it, and maps each error to the function it belongs to."""
import json, os, re, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import vx

# messages of the verifier which refute an obligation; anything else on a function leaves it undecided
DEFINITE = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic (underflow|overflow)|decreases not satisfied|possible division by zero|possible bit shift|index out of bounds|assert_bitvector_by|unreachable')

def fn_spans(text):
    """[(first line, last line, name)] of every fn of the rendered file"""
    out, lines = [], text.split('\n')
    for i, l in enumerate(lines):
        m = re.match(r'\s*(?:pub )?(?:broadcast )?(?:open |closed |uninterp )?(?:proof |spec |exec )?(?:unsafe )?fn (\w+)', l)
        if m: out.append([i + 1, None, m.group(1)])
    for a, b in zip(out, out[1:]): a[1] = b[0] - 1
    if out: out[-1][1] = len(lines)
    return out

def trusted_items(text):
    out = []
    for m in re.finditer(r'assume_specification(?:<[^>]*>)?\s*\[\s*(.*?)\s*\]\s*\(', text): out.append('Verus: assumed contract of ' + re.sub(r'\s+', ' ', m.group(1)))
    lines = text.split('\n')
    for i, l in enumerate(lines):
        if 'external_body' in l and 'left out' not in l:
            for k in range(i, min(i + 6, len(lines))):
                m = re.search(r'\b(fn|struct) (\w+)', lines[k])
                if m: out.append('Verus: assumed contract of %s' % m.group(2)); break
    for m in re.finditer(r'^\s*(admit\(\)|assume\(.*?\));', text, re.M): out.append('Verus: ' + m.group(1))
    return sorted(set(out))

def run_verus(text, unit, threads=8, rlimit=60, timeout=700, extra=()):
    d = os.path.join(HERE, 'build', 'verus'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, unit + '.rs')
    open(p, 'w').write(text)
    cmd = ['verus', p, '--output-json', '--time-expanded', '--error-format=json', '--num-threads', str(threads), '--rlimit', str(rlimit), '--multiple-errors', '3', *extra]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=d)
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired: out, err = '', ''
    diags = []
    for l in err.splitlines():
        if l.startswith('{'):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try: js = json.loads(out[out.index('{'):])
    except ValueError: js = {}
    return dict(cmd=' '.join(cmd), wall=time.time() - t, json=js, diags=[d for d in diags if d['level'] == 'error' and not d['message'].startswith('aborting')], stderr=err)

def unisolate(text, emitted, names):
    """`#[verifier::loop_isolation(false)]` on the functions named: their loops keep the facts known before them (another way to
    discharge the same obligations; a value hoisted out of a loop stays known in it)"""
    lines = text.split('\n')
    for e in emitted:
        if e.name in names:
            for i in range(e.first - 1, min(e.last, len(lines))):
                m = re.match(r'(\s*)((?:pub(?:\([a-z]+\))? )?(?:const )?(?:unsafe )?fn \w+)', lines[i])
                if m and 'loop_isolation' in lines[i - 1]: break
                if m: lines[i] = m.group(1) + '#[verifier::loop_isolation(false)] ' + lines[i].lstrip(); break
    return '\n'.join(lines)

def included(unit):
    """the units which this one includes, the innermost first"""
    out = []
    for l in open(os.path.join(vx.HERE, 'verus', unit + '.vrs'), encoding='utf8'):
        m = re.match(r'\s*//@include (\w+)', l)
        if m: out += [x for x in included(m.group(1)) + [m.group(1)] if x not in out]
    return out

def run(unit, fns=None, tier='quick', threads=8):
    """fns: regular expressions on the names of the functions the property rests on (None: all)"""
    a = run_twice(unit, fns, tier, threads)
    # a function of an included unit has the same text and the same contracts there: what is discharged in the smaller file is discharged.
    # (Verus orders the specification of an operator and its body by the rest of the file, and may then fail to see the former.)
    for inner in included(unit):
        if not a['failed']: break
        names = {e.name for e in vx.render(inner)[1]}
        mine = {f['fn'] for f in a['failed']} & names
        if not mine: continue
        b = run_once(inner, None, tier, threads)
        done = mine & set(b['functions'])
        a['wall'] += b['wall']
        a['failed'] = [f for f in a['failed'] if f['fn'] not in done]
        a['unproved'] = [u for u in a['unproved'] if u.split(':')[0] not in done]
        a['functions'] = a['functions'] + sorted(done); a['discharged'] += len(done)
    return a

def run_twice(unit, fns, tier, threads):
    a = run_once(unit, fns, tier, threads)
    names = {f['fn'] for f in a['failed'] if f['loops']}
    if not names: return a
    b = run_once(unit, fns, tier, threads, loops=names)
    if not b['details']: return a
    # what the second way does not discharge stays refuted as the first way has it
    still = [f for f in a['failed'] if f['fn'] not in b['functions']]
    fns_left = {f['fn'] for f in still}
    b['failed'] = still + [f for f in b['failed'] if f['fn'] not in fns_left]
    b['unproved'] = [u for u in b['unproved'] if u.split(':')[0] not in fns_left]
    b['wall'] += a['wall']
    return b

def refused(r):
    """the front end (rustc's or Verus's own) did not accept the file: nothing, or not everything, was verified"""
    res = r['json'].get('verification-results', {})
    return bool(res.get('encountered-vir-error') or 'verified' not in res or any(d.get('code') for d in r['diags']))

def run_once(unit, fns=None, tier='quick', threads=8, loops=None):
    externals, wall, first = [], 0, None
    try:
        for attempt in range(6):
            text, emitted = vx.render(unit, externals)
            if loops: text = unisolate(text, emitted, loops)
            r = run_verus(text, unit, threads, rlimit=120 if loops else 60); wall += r['wall']
            spans = fn_spans(text)
            res = r['json'].get('verification-results', {})
            if not refused(r): break
            # the front end refused the file: leave out the bodies of the functions concerned and try again
            bad = set()
            for d in r['diags']:
                for s in d['spans']:
                    for e in emitted:
                        if e.first <= s['line_start'] <= e.last and e.name not in externals: bad.add(e.name)
            if not bad: break
            if first is None: first = [d['rendered'][:600] for d in r['diags'][:6]]
            externals += sorted(bad)
    except Exception as e:
        return dict(cmd='verus', wall=wall, obligations=1, discharged=0, functions=[], failed=[], unproved=['the extraction failed: %r' % e], trusted=[], details={})
    want = lambda n: fns is None or any(re.search(p, n) for p in fns)
    cmd = r['cmd']
    if refused(r):
        return dict(cmd=cmd, wall=wall, obligations=1, discharged=0, functions=[], failed=[], unproved=['Verus does not accept the unit %s: %s' % (unit, ' | '.join([d['rendered'][:300] for d in r['diags'][:3]]) or r['stderr'][-400:])], trusted=[], details={})
    def owner(line):
        for e in emitted:
            if e.first <= line <= e.last: return e.name, e
        for a, b, n in spans:
            if a <= line <= b: return n, None
        return '?', None
    errors = {}
    for d in r['diags']:
        d['spans'] = [s for s in d['spans'] if s['file_name'].endswith(unit + '.rs')] or d['spans']  # (not the library of Verus)
        prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
        # a failed precondition is the caller's: the span labelled "failed precondition" is in the callee
        if d['message'].startswith('precondition'): prim = [s for s in d['spans'] if 'failed precondition' not in (s['label'] or '')] or prim
        if not prim: continue
        n, e = owner(prim[0]['line_start'])
        errors.setdefault(n, (e, []))[1].append(d)
    failed, unproved, bad = [], [], set()
    for n, (e, ds) in errors.items():
        bad.add(n)
        if not want(n): continue
        for d in ds:
            if e is not None and not e.lost and DEFINITE.search(d['message']) and not any('rlimit' in x['message'] or 'Resource limit' in x['message'] for x in ds):
                failed.append(dict(fn=n, loops=bool(re.search(r'\b(while|loop|for)\b', '\n'.join(text.split('\n')[e.first - 1:e.last]))), backend='verus ' + unit, obligation='%s: %s' % (n, d['message']), message=' / '.join((s['text'][0]['text'].strip() if s['text'] else '') + (' [' + s['label'] + ']' if s['label'] else '') for s in d['spans'])[:400], output=d['rendered'].splitlines()[:40]))
            else: unproved.append('%s: %s%s' % (n, d['message'], ' (lost: %s)' % e.lost if e is not None and e.lost else ''))
    for e in emitted:
        if e.name in externals and want(e.name): unproved.append('%s: the front end of Verus does not accept its current body: %s' % (e.name, (first or [''])[0].splitlines()[0] if first else ''))
        elif e.lost and want(e.name):
            bad.add(e.name)
            if not e.lost[0].startswith('left') and e.name not in errors and 'times' in e.lost[0]: unproved.append('%s: %s' % (e.name, e.lost))
            elif e.name not in errors: bad.discard(e.name)  # verified although a proof hint found no place
    names = [e.name for e in emitted if want(e.name)]
    ok = [n for n in names if n not in bad and n not in externals and not any(e.name == n and 'left out' in e.lost for e in emitted)]
    # obligations: every function and lemma Verus verified in the unit when all of it is asked for, else the functions named
    lemmas = [n for a, b, n in spans if not any(e.first <= a <= e.last for e in emitted)]
    lemma_bad = [n for n in errors if errors[n][0] is None]
    for n in lemma_bad:
        if want(n): pass
        else: unproved.append('lemma %s: %s' % (n, errors[n][1][0]['message']))
    v, er = res.get('verified', 0), res.get('errors', 0)
    obligations = len(names) + max(0, v + er - len([e for e in emitted]))
    smt = r['json'].get('times-ms', {}).get('smt', {})
    return dict(cmd=cmd, wall=wall, obligations=obligations, discharged=obligations - (len(names) - len(ok)) - len(lemma_bad), functions=ok, failed=failed, unproved=unproved,
                trusted=trusted_items(text), details=dict(verus_verified=v, verus_errors=er, smt_ms=smt.get('total', smt.get('smt-run')), source_files=sorted({e.file for e in emitted})))

def vacuity(unit, threads=8):
    """every function under contract must fail once `assert(false)` starts its body"""
    text, emitted = vx.render(unit, vacuity=True)
    r = run_verus(text, unit + '_vac', threads)
    hit = set()
    for d in r['diags']:
        if 'assertion failed' in d['message']:
            for s in d['spans']:
                for e in emitted:
                    if e.first <= s['line_start'] <= e.last: hit.add(e.name)
    return [e.name for e in emitted if e.name not in hit], r

if __name__ == '__main__':
    unit = sys.argv[1]
    if '--vacuity' in sys.argv:
        v, r = vacuity(unit); print('not refuted:', v); sys.exit()
    extra = [a for a in sys.argv[2:]]
    text, emitted = vx.render(unit)
    r = run_verus(text, unit, extra=extra)
    for e in emitted:
        if e.lost: print('LOST', e.name, e.lost)
    for d in r['diags'][:int(os.environ.get('N', '8'))]: print(d['rendered'])
    if not r['json']: print(r['stderr'][-3000:])
    print(r['json'].get('verification-results'), '%.1fs' % r['wall'])
    fd = r['json'].get('func-details', {})
    smt = r['json'].get('times-ms', {}).get('smt', {}).get('smt-run-module-times', [])
    times = sorted(((f.get('time', 0), f.get('function')) for m in smt for f in m.get('function-breakdown', [])), reverse=True)[:6]
    print(times)
