"""Lemmas of pure mathematics that the obligations cite, proved in Lean 4 with Mathlib (lean/*.lean), checked on every run."""
import os, re, shutil, subprocess
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')
def lean(r, name):
    f = os.path.join(HERE, name + '.lean'); src = open(f).read()
    ths = re.findall(r'^theorem\s+(\w+)', src, re.M)
    if re.search(r'\b(sorry|axiom|admit|native_decide)\b', src) or not ths: r.add('lean/%s.lean: complete proofs' % name, 'undecided', 'incomplete', 'Lean 4'); return
    exe = shutil.which('lean')
    if exe is None: r.add('lean/%s.lean' % name, 'undecided', 'lean is not installed', 'Lean 4'); return
    p = subprocess.run([exe, f], capture_output=True, text=True, timeout=280)
    bad = p.returncode != 0 or 'error' in p.stdout or 'sorry' in p.stdout
    for t in ths: r.add('lemma %s (lean/%s.lean)' % (t, name), 'undecided' if bad else 'discharged', (p.stdout + p.stderr)[:300] if bad else '', 'Lean 4')
def lean_task(name): return [('dv.lean', 'lean', (name,), 'lean/%s.lean' % name)]
