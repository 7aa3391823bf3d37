"""Builds the witness search against the current tree and runs it for one property."""
import os, re, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(HERE, 'search')

def build():
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    try:
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=DIR, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return 'the build of the search timed out'
    if p.returncode:
        return 'the search does not build against this tree: ' + ' | '.join([l for l in p.stdout.splitlines() if l.startswith('error')][:4])
    return None

def run(prop, seed, budget, case=None, timeout=None):
    cmd = [os.path.join(DIR, 'target/debug/search'), prop, '--seed', str(seed), '--budget', str(budget)]
    if case is not None: cmd += ['--case', str(case)]
    t = time.time()
    r = dict(cmd=' '.join(cmd), witness=None, cases=0, stages=[], problem=None)
    try:
        p = subprocess.run(['bash', '-c', 'ulimit -v 12000000; exec "$@"', 'search'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout or budget * 2 + 120)
        out, code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, code = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, (bytes, type(None))) else e.stdout, None
    r['wall'] = time.time() - t
    for line in out.splitlines():
        m = re.match(r'STAGE (.*) cases=(\d+)', line)
        if m: r['stages'].append((m.group(1), int(m.group(2))))
        m = re.match(r'DONE property=\S+ cases=(\d+)', line)
        if m: r['cases'] = int(m.group(1)); r['done'] = True
        m = re.match(r'WITNESS property=(\S+) seed=(\d+) case=(\d+) input=<<(.*)>> problem=<<(.*)>>', line)
        if m: r['witness'] = dict(seed=int(m.group(2)), case=int(m.group(3)), input=m.group(4), problem=m.group(5))
        m = re.match(r'ABORT case=(\d+) (.*)', line)
        if m and not r['witness']: r['witness'] = dict(seed=seed, case=int(m.group(1)), input='(see the replay)', problem='aborts: ' + m.group(2))
    if not r['witness'] and not r.get('done'):
        # killed by a signal (or hung) without a word: find the case by its number is not possible
        r['problem'] = 'the search ended with %s: %s' % (code, out[-300:].replace('\n', ' '))
        if code is not None and code < 0 or code in (134, 139, 136):
            r['witness'] = dict(seed=seed, case=None, input='(whole run)', problem='the real code crashed the process (status %s)' % code)
    r['out'] = out[-4000:]
    return r
