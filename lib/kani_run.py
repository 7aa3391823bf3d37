"""Runs the Kani contracts of one property and reports each harness."""
import os, re, subprocess, time, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def run(prefix, jobs=8, timeout=240, exact=None, extra=()):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    cmd = ['cargo', 'kani', '-Z', 'function-contracts', '-Z', 'stubbing', '-j', str(jobs), '--output-format=terse', '--harness', prefix, *extra]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.join(HERE, 'kani'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, start_new_session=True)
        out, code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or ''); code = None
        subprocess.run(['pkill', '-f', 'contracts.*cbmc'])
    cur, res = {}, {}
    th = 0
    for line in out.splitlines():
        m = re.match(r'Thread (\d+): ?(.*)', line)
        if m: th, line = m.group(1), m.group(2)
        m = re.match(r'Checking harness (\S+)\.\.\.', line)
        if m: cur[th] = m.group(1); res[m.group(1)] = dict(status='started', failed=[], checks=0, time=0.0); continue
        h = res.get(cur.get(th))
        if h is None: continue
        m = re.match(r' \*\* (\d+) of (\d+) failed', line)
        if m: h['checks'] = int(m.group(2)); h['nfailed'] = int(m.group(1))
        m = re.match(r'Failed Checks: (.*)', line)
        if m: h['failed'].append(m.group(1))
        m = re.match(r'VERIFICATION:- (.*)', line)
        if m: h['status'] = m.group(1)
        m = re.match(r'Verification Time: ([\d.]+)s', line)
        if m: h['time'] = float(m.group(1))
    return dict(cmd=' '.join(cmd), code=code, out=out, harnesses=res, wall=time.time() - t)

if __name__ == '__main__':
    r = run(sys.argv[1])
    for n, h in sorted(r['harnesses'].items(), key=lambda x: -x[1]['time'])[:int(sys.argv[2]) if len(sys.argv) > 2 else 15]:
        print(f"{h['time']:7.2f}s {h['checks']:5d} {h['status']} {n} {h['failed'][:3]}")
    print(len(r['harnesses']), 'harnesses', r['code'], '%.1fs' % r['wall'])
    if r['code'] != 0:
        print('\n'.join(l for l in r['out'].splitlines() if l.startswith('error'))[:3000])
