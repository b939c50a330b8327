#!/usr/bin/env python3
"""Development aid: measures what the workloads detect. Applies small generated changes to copies of the library and
runs a sample of all workloads against each until one reports something.
   mutate.py list FILE...            shows the changes
   mutate.py run OUT N SEED FILE...  tries N random ones
   mutate.py one FILE:INDEX          a single one"""
import os, random, re, subprocess, sys, tempfile, shutil, json, time
REPO = os.environ.get('MUT_REPO', '/repo')
os.environ.setdefault('MUT_V', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

RULES = [
    (re.compile(r'notify_all\(\)'), ['notify_one()']),
    (re.compile(r'^(\s*)(\+\+|--)([\w.>\-]+);'), [r'\1;']),
    (re.compile(r'\bfetch_add\b'), ['fetch_sub']), (re.compile(r'\bfetch_sub\b'), ['fetch_add']),
    (re.compile(r'std::memory_order_(seq_cst|acq_rel|acquire|release|consume)'), ['std::memory_order_relaxed']),
    (re.compile(r' == '), [' != ']), (re.compile(r' != '), [' == ']),
    (re.compile(r' > (?=[\w])'), [' >= ', ' < ']), (re.compile(r' < (?=\w+[\w.>\-()]*[;)])'), [' <= ', ' > ']), (re.compile(r' >= '), [' > ']),
    (re.compile(r' && '), [' || ']), (re.compile(r' \|\| '), [' && ']),
    (re.compile(r'\bif \(([^;{]*)\) \{$'), [r'if (!(\1)) {', r'if (true || (\1)) {', r'if (false && (\1)) {']),
    (re.compile(r'^(\s*)(?!return|break|continue|const|auto|static|using|friend|namespace|struct|class|template|throw|else|std::(unique|lock)|\})([\w:>.\-*\[\]]+\(.*\)|[\w:>.\-*]+ = [^=].*);$'), [r'\1;']),
    (re.compile(r'^(\s*)break;'), [r'\1continue;', r'\1;']), (re.compile(r'^(\s*)continue;'), [r'\1break;']),
    (re.compile(r'^(\s*)return (true|false);'), [r'\1return !\2;']),
    (re.compile(r'\btrue\b'), ['false']), (re.compile(r'\bfalse\b'), ['true']),
    (re.compile(r'= 0;'), ['= 1;']), (re.compile(r'\(0\)'), ['(1)']), (re.compile(r'\(1\)'), ['(2)']), (re.compile(r' \+ 1\b'), ['']), (re.compile(r' - 1\b'), ['']),
    (re.compile(r'^(\s*)(std::lock_guard<[^;]*>|inverse_lock_guard<[^;]*>|ithreadpool::block_scope|cancelable_scope|waiter_scope|drain_scope) \w+[^;]*;$'), [r'\1;']),
    (re.compile(r'std::swap\('), ['static_cast<void>(']),
    (re.compile(r'push_back\('), ['push_front(']), (re.compile(r'DEFAULT\b'), ['BACKGROUND']), (re.compile(r'std::min\('), ['std::max(']), (re.compile(r'std::max\('), ['std::min(']),
    (re.compile(r'nullptr'), ['reinterpret_cast<decltype(nullptr)>(1)']) if False else (re.compile(r'@@'), ['']),
]

def mutants(path):
    text = open(os.path.join(REPO, path)).read().split('\n')
    out = []; comment = False
    for n, l in enumerate(text):
        s = l.strip()
        if s.startswith('/*'): comment = True
        if comment:
            if '*/' in s: comment = False
            continue
        if s.startswith('//') or s.startswith('#') or not s or 'TRACE' in l or 'WARNING' in l or 'ASSERT' in l or '<<' in l: continue
        for rx, reps in RULES:
            for m in rx.finditer(l):
                for r in reps:
                    new = l[:m.start()] + m.expand(r) + l[m.end():]
                    if new != l: out.append((n, l, new))
    seen = set(); res = []
    for o in out:
        if (o[0], o[2]) not in seen: seen.add((o[0], o[2])); res.append(o)
    return res

def apply(work, path, m):
    p = os.path.join(work, path)
    t = open(os.path.join(REPO, path)).read().split('\n')
    t[m[0]] = m[2]
    open(p, 'w').write('\n'.join(t))

WORKER = r'''
import sys, os, random, time, json
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['MUT_V'] + '/vlib')
import engine, build, spec, concurrent.futures as cf
mode, seed, qt = sys.argv[1], int(sys.argv[2]), sys.argv[3] == '1'
props = sys.argv[4].split(',') if len(sys.argv) > 4 and sys.argv[4] else sorted(spec.PROPERTIES)
runs = []; seen = set()
for p in props:
    for r in engine.expand(p, 'quick', seed):
        key = (r['driver'], r['flavour'], r['scenario'], r['qt'])
        k = (key, r['env'].get('XDISPATCH2_THREAD_COUNT'))
        if r['qt'] and not qt: continue
        if r['scenario'] in ('quiet', 'expire'): continue
        if mode == 'fast' and (r['flavour'] != 'chaos' or k in seen): continue
        if mode == 'deep' and (sum(1 for x in seen if x[0] == key) >= (3 if r['flavour'] != 'chaos' else 5) or k in seen): continue
        seen.add(k); r['prop'] = p
        if mode == 'fast': r['cases'] = min(r['cases'], 3)
        runs.append(r)
random.Random(seed).shuffle(runs)
b = build.Builder(); exes = {}
try:
    for r in runs: exes.setdefault((r['driver'], r['flavour'], r['qt']), None)
    for k in exes: exes[k] = b.program(*k)
    for k in exes: exes[k] = exes[k]()
except build.BuildError as e:
    print(json.dumps(dict(result='nobuild'))); sys.exit(0)
stop = []
def one(r):
    if stop: return
    res = engine.execute(exes[(r['driver'], r['flavour'], r['qt'])], r, 60)
    if res.timeout: res.violations.append(('TIMEOUT', ''))
    if res.violations and not stop: stop.append((r, res.violations[0]))
with cf.ThreadPoolExecutor(int(os.environ.get('J','7'))) as ex: list(ex.map(one, runs))
for k in exes:
    try: os.unlink(exes[k])
    except OSError: pass
if stop: print(json.dumps(dict(result='killed', prop=stop[0][0]['prop'], run=engine.describe(stop[0][0]), what=str(stop[0][1])[:200])))
else: print(json.dumps(dict(result='survived', runs=len(runs))))
'''

def try_one(path, m, seed=1):
    work = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        for d in ('src', 'include'): shutil.copytree(os.path.join(REPO, d), os.path.join(work, d))
        shutil.copy(os.path.join(REPO, 'config.h.in'), work)
        apply(work, path, m)
        qt = '1' if 'qt5' in path else '0'
        for mode in ('fast', 'deep'):
            r = subprocess.run([sys.executable, '-c', WORKER, mode, str(seed), qt], env=dict(os.environ, VH_REPO=work), capture_output=True, text=True)
            try: d = json.loads(r.stdout.strip().split('\n')[-1])
            except Exception: return dict(result='error', err=r.stderr[-500:])
            d['mode'] = mode
            if d['result'] != 'survived': return d
        return d
    finally:
        shutil.rmtree(work)

def main():
    cmd = sys.argv[1]
    if cmd == 'list':
        for f in sys.argv[2:]:
            for i, m in enumerate(mutants(f)): print('%s:%d line %d\n  - %s\n  + %s' % (f, i, m[0] + 1, m[1].strip(), m[2].strip()))
    elif cmd == 'one':
        f, i = sys.argv[2].rsplit(':', 1); m = mutants(f)[int(i)]
        print(m); print(try_one(f, m, int(os.environ.get('SEED', '1'))))
    else:
        out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        done = set(open(out).read().split('\n')) if os.path.exists(out) else set()
        done = {l.split(' ')[0] for l in done}
        pool = [(f, i, m) for f in sys.argv[5:] for i, m in enumerate(mutants(f))]
        random.Random(seed).shuffle(pool)
        for f, i, m in pool[:n]:
            name = '%s:%d' % (f, i)
            if name in done: continue
            t = time.time(); d = try_one(f, m, seed)
            with open(out, 'a') as o:
                o.write('%s %s %.0fs line %d | %s => %s | %s\n' % (name, d['result'], time.time() - t, m[0] + 1, m[1].strip(), m[2].strip(), d.get('prop', '') + ' ' + d.get('what', d.get('err', ''))[:120] + ' ' + d.get('run', '')))
main()
