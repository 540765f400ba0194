#!/usr/bin/env python3
"""Development aid: mutation testing of the checks.

  tools/mutate.py MUTANTS.jsonl OUT.jsonl [-j N] [-s SHARDS]

MUTANTS.jsonl holds one {"File","Start","End","Old","New","Kind","Line"} per
line (byte offsets in /repo's files; tools/mutgen writes them). Each mutant that
builds and passes the existing tests is run against a part (1/SHARDS) of every
check; OUT.jsonl gets one line per mutant with its fate: C does not compile,
T the tests fail, K:<id> a check reports it, S survives.
"""
import json, os, subprocess, sys, shutil, threading, queue, argparse
ap = argparse.ArgumentParser()
ap.add_argument('mutants'); ap.add_argument('out')
ap.add_argument('-j', type=int, default=7); ap.add_argument('-s', type=int, default=40)
ap.add_argument('-g', action='store_true', help='guarded mutants (tools/mutguard): U if the plain change passes the tests; only the nearest checks')
a = ap.parse_args()
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=mod', GOSUMDB='off', GOMAXPROCS='2')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
    'normalizedstring': 'C01 C02 C03 C04 C05 C06 C07 C25',
    'splitpattern': 'C08 C06 C25 C20 C26',
    'strutils': 'C23 C25 C01 C02 C15',
    'normalizers': 'C09 C10 C20 C25',
    'pretokenizers': 'C11 C12 C13 C24 C25',
    'pretokenizedstring': 'C14 C15 C26 C24',
    'encodings': 'C15 C24 C20',
    'models/bpemodel': 'C17 C18 C19 C22 C20 C25 C24',
    'models/wordpiecemodel': 'C16 C24 C25 C20',
    'vocabulary': 'C21 C22 C16',
}
ALL = ['C%02d' % i for i in range(1, 27)]
muts = [json.loads(l) for l in open(a.mutants)]
done = set()
if os.path.exists(a.out):
    for l in open(a.out):
        m = json.loads(l); done.add((m['File'], m['Start'], m['End'], m['New']))
q = queue.Queue(); seen = set()
for m in muts:
    k = (m['File'], m['Start'], m['End'], m['New'])
    if k not in done and k not in seen: seen.add(k); q.put(m)
shutil.rmtree('/tmp/mutw', ignore_errors=True); shutil.copytree('/repo', '/tmp/mutw/base', symlinks=True)
lock = threading.Lock(); outf = open(a.out, 'a')
def run(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.wait(); return 'timeout', ''
def work(i):
    base = '/tmp/mutw/%d' % i
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    lib, har = base + '/lib', base + '/harness'
    shutil.copytree('/tmp/mutw/base', lib, symlinks=True); shutil.copytree(here + '/harness', har)
    run(['go', 'mod', 'edit', '-replace', 'github.com/nlpodyssey/gotokenizers=' + lib], har, 60)
    n = 0
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        n += 1
        path = lib + '/' + m['File']
        src = open('/tmp/mutw/base/' + m['File'], 'rb').read()
        new = src[:m['Start']] + m['New'].encode() + src[m['End']:]
        open(path, 'wb').write(new)
        fate = None; msg = ''
        if a.g and m['Kind'] != 'del':
            open(path, 'wb').write(src[:m['Start']] + m['Plain'].encode() + src[m['End']:])
            rc, o = run(['go', 'build', './...'], lib, 120)
            if rc == 0:
                rc, o = run(['go', 'test', '-vet=off', '-timeout', '30s', './...'], lib, 200)
                if rc == 0: fate = 'U'
        open(path, 'wb').write(new)
        rc, o = run(['go', 'build', './...'], lib, 120)
        if rc != 0 and not fate: fate = 'C'
        if not fate:
            rc, o = run(['go', 'test', '-vet=off', '-timeout', '30s', './...'], lib, 200)
            if rc != 0: fate = 'T'
        if not fate:
            rc, o = run(['go', 'build', '-o', base + '/h', '.'], har, 200)
            if rc != 0: fate = 'C'; msg = o[:500]
        if not fate:
            pk = os.path.dirname(m['File'])
            first = next((v for k, v in ORDER.items() if pk.startswith(k)), '').split()
            for c in first + ([] if a.g else [x for x in ALL if x not in first]):
                res = base + '/res.json'
                if os.path.exists(res): os.remove(res)
                rc, o = run([base + '/h', 'worker', '-prop', c, '-tier', 'quick', '-seed', str(1000 + n), '-shard', str(n % a.s), '-shards', str(a.s), '-out', res], base, 250)
                try: r = json.load(open(res))
                except Exception: r = None
                if rc == 'timeout': fate = 'K:%s' % c; msg = 'timeout'; break
                if r and r['Failures'] if r and 'Failures' in r else (r and r.get('failures')):
                    f = (r.get('failures') or r.get('Failures'))[0]
                    fate = 'K:%s' % c; msg = (f.get('msg') or '')[:150]; break
                if rc != 0 or r is None: fate = 'X:%s' % c; msg = '%s %s' % (rc, o[-300:]); break
            else: fate = 'S'
        open(path, 'wb').write(src)
        m['Fate'] = fate; m['Msg'] = msg
        with lock:
            outf.write(json.dumps(m) + '\n'); outf.flush()
    shutil.rmtree(base, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
