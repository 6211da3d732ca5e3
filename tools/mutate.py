"""mutate.py N SEED SLOTS [REGEX] (N = 0: all guards): small syntactic changes of the library in scratch copies;
which of those that pass the repository's tests do the suites notice?  Results in
/tmp/mut/results.ndjson (append only).  Not part of any check."""
import sys, os, re, random, json, subprocess, shutil, time, threading, concurrent.futures
sys.path.insert(0, '/verif/bin')
import tlalib, suites as S
M = '/tmp/mut'
N, SEED, SLOTS = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
RX = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
MCN, RN = 250, 350
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors='replace', **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c, 124, '')
SWAPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'Endian::Big\b', 'Endian::Little'), (r'Endian::Little\b', 'Endian::Big'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\bSome\(([a-z_]+)\) => ', None), (r' \* ', ' + '), (r' / ', ' * '), (r' % 2', ' % 4'), (r' & ', ' | '), (r' \| ', ' & '),
         (r'\.any\(', '.all('), (r'\.all\(', '.any('), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'is_empty\(\)', 'is_empty() == false'), (r'if ', 'if !'), (r'continue;', 'break;'), (r'break;', 'continue;')]
def candidates():
    res = []
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, '/repo')
            if not RX.search(rel): continue
            inside = False
            for i, l in enumerate(open(p).read().split('\n')):
                if '#[cfg(test)]' in l: break
                s = l.strip()
                if '/*' in s: inside = True
                if '*/' in s: inside = False
                if inside: continue
                if not s or s.startswith(('//', 'log::', 'use ', '"', '#[', 'assert', 'pub use')): continue
                code = re.sub(r'"[^"]*"', lambda m: ' ' * len(m.group(0)), l.split('//')[0])
                for a, b in SWAPS:
                    if b is None: continue
                    for m in re.finditer(a, code):
                        if a == 'if ' and not (s.startswith('if ') and ' let ' not in s): continue
                        if a == 'if ' : b2 = 'if !'
                        res.append((rel, i, m.start(), m.end(), b))
                for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?:u8|u16|u32|u64|i64|usize)?(?![\w.])', code):
                    v = int(m.group(1), 16 if m.group(1).startswith("0x") else 10)
                    for w in {v + 1, max(v - 1, 0)} - {v}:
                        res.append((rel, i, m.start(1), m.end(1), str(w)))
                if re.match(r'^[a-z_.]+(::[a-z_]+)*\(.*\)\??;$|^[a-z_.\[\]]+ [-+]?= .*;$|^[a-z_.]+\.(extend|push|append|seek|set_position|sort|retain|remove|insert|truncate|set_len|write_all)\(.*;$', s) and not s.startswith(('return', 'let ')):
                    res.append((rel, i, len(l) - len(l.lstrip()), len(l), '/* gone */'))
    return res
def guards():
    """every check that ends in an error, without one of its alternatives"""
    res = []
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, '/repo')
            if not RX.search(rel): continue
            t = open(p).read().split('#[cfg(test)]')[0]
            for m in re.finditer(r'\bif (?!let)((?:(?!\bif\b|\belse\b)[^{};])*?)\{\s*(?:(?://[^\n]*|log::[^;]*;)\s*)*(return|break|continue)', t):
                c = re.sub(r'//[^\n]*', '', m.group(1)).strip()
                alts = [x.strip() for x in re.split(r'\|\|', c)] if '(' not in re.sub(r'\([^()]*\)', '', c) else [c]
                for k in range(len(alts)):
                    r = ' || '.join(a for j, a in enumerate(alts) if j != k) or 'false && (%s)' % c
                    res.append((rel, None, m.start(1), m.end(1), ' '.join(r.split()) + ' '))
            for m in re.finditer(r'\.(checked|saturating)_(add|sub|mul)\(', t):
                res.append((rel, None, m.start(1), m.end(1), 'wrapping' if m.group(1) == 'saturating' else 'overflowing'))
            for m in re.finditer(r'\.min\([^()]*(?:\([^()]*\))?[^()]*\)|\.take\([^()]*(?:\([^()]*\))?[^()]*\)', t):
                res.append((rel, None, m.start(), m.end(), ''))
    return res
def narrow():
    """lengths, counts and positions that only fit so much"""
    res = []
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, '/repo')
            if not RX.search(rel): continue
            t = open(p).read().split('#[cfg(test)]')[0]
            for m in re.finditer(r' as (usize|u64|u32|i64|i32)\b|\.len\(\)(?! as )', t):
                l = t[t.rfind('\n', 0, m.start()) + 1:m.start()].strip()
                if l.startswith(('//', 'log::', '*')) or 'format!' in l or '"' in l: continue
                for w in (('u8', 'u16') if m.group(1) else ('.min(255)', '.min(65535)')):
                    res.append((rel, None, m.start(), m.end(), ' as %s as %s' % (w, m.group(1)) if m.group(1) else '.len()' + w))
    return res
def setup(k):
    d = '%s/s%d' % (M, k)
    sh('mkdir -p %s; cp -a /repo %s/repo; mkdir -p %s/h; cp -a /verif/harness/. %s/h/; sed -i "s#/repo#%s/repo#" %s/h/Cargo.toml' % (d, d, d, d, d, d))
    return d
def cases():
    """the same cases for all mutants"""
    d = M + '/cases'
    if not os.path.exists(d):
        import engine
        os.makedirs(d)
        tlalib.build()
        st = engine.Stats()
        for s, cfg in S.SUITES.items():
            w = M + '/w'; os.makedirs(w, exist_ok=True)
            c = engine.mc_cases(s, cfg, 'quick', 7, w, st)
            c = random.Random(3).sample(c, min(len(c), MCN * (2 if s in ('codec', 'store', 'ftype') else 6 if s.startswith('robust') else 1)))
            tlalib.lexh('gen', s, RN * (3 if s == 'codec' or s.startswith('robust') else 1), 77, w + '/r')
            tlalib.dump('%s/%s' % (d, re.sub(r'\W', '_', s)), c + tlalib.load(w + '/r'))
    return d
# cases whose traces are rejected on the unchanged tree do not count
def one(slot, mut, cd):
    rel, i, a, b, new = mut
    d = '%s/s%d' % (M, slot)
    p = '%s/repo/%s' % (d, rel)
    orig = open('/repo/' + rel).read()
    if i is None:
        rec = {'file': rel, 'line': orig[:a].count('\n') + 1, 'old': ' '.join(orig[a:b].split()), 'new': new}
        open(p, 'w').write(orig[:a] + new + orig[b:])
    else:
        ls = orig.split('\n')
        old = ls[i]
        ls[i] = old[:a] + new + old[b:]
        rec = {'file': rel, 'line': i + 1, 'old': old.strip(), 'new': ls[i].strip()}
        open(p, 'w').write('\n'.join(ls))
    try:
        env = 'export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true; '
        r = sh(env + 'cd %s/h && CARGO_TARGET_DIR=%s/th cargo build --offline --quiet' % (d, d))
        if r.returncode: rec['verdict'] = 'no build'; return rec
        r = sh(env + "ulimit -v 6000000; cd %s/repo && CARGO_TARGET_DIR=%s/tr cargo test --workspace --exclude little_exif_heif_conformance_tests --no-fail-fast --offline -- --test-threads 4" % (d, d), t=180)
        if r.returncode: rec['verdict'] = 'tests'; return rec
        t = time.time()
        hits = []
        fm = [k for k, v in {'JPEG': 'jpg', 'PNG': 'png', 'WEBP': 'webp', 'JXL': 'jxl', 'HEIF': 'heif', 'TIFF': 'tiff'}.items() if v in rel] + [k for k, v in {'codec': 'ifd|metadata|exif_tag|u8conv|endian', 'tag': 'exif_tag|u8conv|rational', 'ratio': 'rational', 'store': 'metadata|ifd', 'ftype': 'filetype|_io', 'cont:PNG': 'xmp'}.items() if re.search(v, rel)]
        for s, cfg in sorted(S.SUITES.items(), key=lambda x: not any(y in x[0] for y in fm)):
            n = re.sub(r'\W', '_', s)
            w = '%s/w' % d
            shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            r = sh('LEXH_TIMEOUT=8 %s/th/debug/lexh exec %s/%s %s/t %s/scratch 4' % (d, cd, n, w, w), t=600)
            if r.returncode: hits.append([s, 'harness', r.stdout[-200:]]); break
            try:
                out, _, _ = tlalib.tlc_ok(cfg['trace'], cfg['trace'] + '.cfg', w, envv={'TRACES': w + '/t'}, workers=3, xmx='3g')
            except tlalib.ToolError as e:
                hits.append([s, 'tlc', str(e)[-300:]]); break
            rej = [x for x in tlalib.rejects(out) if (s, x['id']) not in BASE]
            if rej:
                tr = {t['id']: t for t in tlalib.load(w + '/t')}
                props = set()
                for x in rej:
                    for c in x['bad']:
                        for q, pr in S.PROPS.items():
                            try:
                                if s in pr['suites'] and pr['select'](s, tr[x['id']], x['l'], c): props.add(q)
                            except Exception: pass
                hits.append([s, sorted(props), len(rej)]); 
                if props: break
        rec['verdict'] = 'caught' if any(h[1] for h in hits) else 'SURVIVED'
        rec['hits'] = hits; rec['secs'] = round(time.time() - t)
        return rec
    finally:
        open(p, 'w').write(orig)
BASE = set()
if __name__ == '__main__':
    os.makedirs(M, exist_ok=True)
    cd = cases()
    c = candidates()
    rnd = random.Random(SEED)
    # the same number from every file weighted by the square root of its size
    by = {}
    for x in c: by.setdefault(x[0], []).append(x)
    print(len(c), {k: len(v) for k, v in by.items()})
    fs = list(by)
    w = [len(by[f]) ** 0.7 for f in fs]
    todo = []
    for _ in range(N):
        f = rnd.choices(fs, w)[0]
        todo.append(rnd.choice(by[f]))
    if N == 0: todo = guards(); print(len(todo), 'guards')
    if os.environ.get('MODE') == 'narrow': todo = narrow(); print(len(todo), 'narrowings'); rnd.shuffle(todo); todo = todo[:N]
    for k in range(SLOTS): setup(k)
    free = list(range(SLOTS)); lock = threading.Lock()
    def job(m):
        with lock: k = free.pop()
        try: rec = one(k, m, cd)
        except Exception as e: rec = {'verdict': 'error', 'e': repr(e), 'm': m}
        with lock:
            free.append(k)
            open(M + '/results.ndjson', 'a').write(json.dumps(rec) + '\n')
    with concurrent.futures.ThreadPoolExecutor(SLOTS) as p: list(p.map(job, todo))
