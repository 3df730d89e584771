"""Bounded replay: builds the harness programs from /repo's sources and runs topics in parallel."""
import os, subprocess, tempfile, shutil, time, re, atexit, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('FFTMPI_SRC', '/repo/src')
_work = None
def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='fftmpi-verif-')
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work
_built = {}
def build(cfg, progs):
    """-> (dir or None, error text)"""
    key = (cfg, tuple(progs))
    if key in _built: return _built[key]
    out = os.path.join(work(), cfg + '-' + '-'.join(progs))
    p = subprocess.run(['bash', os.path.join(HERE, 'harness/build.sh'), SRC, out, cfg] + list(progs), capture_output=True, text=True, timeout=600)
    ok = p.returncode == 0 and all(os.path.exists(os.path.join(out, x)) for x in progs)
    _built[key] = (out, '') if ok else (None, (p.stderr or p.stdout)[-2000:])
    return _built[key]
class Run:
    def __init__(self): self.cases = 0; self.nontrivial = 0; self.fails = []; self.samples = []; self.errors = []
def classify(txt):
    """property a sanitizer report or crash belongs to"""
    if 'LeakSanitizer' in txt or 'double-free' in txt or 'use-after-free' in txt or 'attempting free' in txt or 'alloc-dealloc' in txt or 'bad-free' in txt: return 'C12'
    if 'buffer-overflow' in txt or 'use-of-uninit' in txt or 'out of bounds' in txt: return 'C08'
    return 'crash'
def run(cfg, prog, topic, a, b, secs, workers=8, env=None):
    """run seeds a..b-1 of a topic, at most secs seconds, over several workers"""
    res = Run()
    d, err = build(cfg, [prog])
    if d is None:
        res.errors.append('harness %s (%s) does not build: %s' % (prog, cfg, err)); return res
    exe = os.path.join(d, prog)
    step = (b - a + workers - 1) // workers
    e = dict(os.environ); e['ASAN_OPTIONS'] = 'detect_leaks=%d:max_malloc_fill_size=1000000:malloc_fill_byte=171:detect_stack_use_after_return=0' % (1 if topic in ('life','rlife') else 0)
    e['LSAN_OPTIONS'] = 'exitcode=0' if topic not in ('life','rlife') else ''
    e.update(env or {})
    lock = threading.Lock()
    def one(lo, hi):
        cmd = [exe, topic, str(lo), str(hi), '-t%g' % secs]
        try: p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs + 60, env=e); out, er, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''); er = 'timeout'; rc = -99
        with lock:
            m = re.search(r'^DONE (\d+) (\d+)', out, re.M)
            cs = re.findall(r'^CASE (\d+)', out, re.M)
            res.cases += int(m.group(1)) if m else len(cs); res.nontrivial += int(m.group(2)) if m else len(cs)
            for l in re.findall(r'^DESC (.*)', out, re.M)[:1]:
                if len(res.samples) < 4: res.samples.append('%s %s: %s' % (prog, topic, l[:400]))
            fl = re.findall(r'^FAIL (\S+) (.*)', out, re.M)
            for prop, msg in fl[:8]: res.fails.append({'prop': prop, 'msg': msg, 'topic': topic, 'prog': prog, 'cfg': cfg, 'seed': int(cs[-1]) if cs else None})
            if rc != 0 and not fl:
                if rc == -99: res.fails.append({'prop': 'C07', 'msg': 'case does not finish', 'topic': topic, 'prog': prog, 'cfg': cfg, 'seed': int(cs[-1]) if cs else None})
                elif cs: res.fails.append({'prop': classify(er), 'msg': 'crash rc=%s: %s' % (rc, er[:1500]), 'topic': topic, 'prog': prog, 'cfg': cfg, 'seed': int(cs[-1])})
                else: res.errors.append('%s %s exited with %s: %s' % (prog, topic, rc, er[:300]))
    ths = []
    for lo in range(a, b, max(step, 1)):
        t = threading.Thread(target=one, args=(lo, min(b, lo + step))); t.start(); ths.append(t)
    for t in ths: t.join()
    return res
