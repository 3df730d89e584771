"""C14: tuning ends with a usable plan with the fastest tried settings, everywhere.  See dv/tune.py."""
M = 'dv.tune'
def tasks(tier):
    # the contracts of setup and of the releases, as tune uses them: released plans are as new (C12)
    life = [('dv.props.c12', 'life', (d, 'kiss', 'double', 0, e, m), 'life %dd exchange=%d memoryflag=%d' % (d, e, m)) for d in (3, 2) for e in (0, 1) for m in (0, 1)]
    return life + [(M, 'trial', (d, 'kiss', 'double'), 'tune_trial %dd' % d) for d in (3, 2)] + [(M, 'tune', (d, l, p), 'tune %dd %s %s' % (d, l, p)) for d in (3, 2) for l, p in ((('kiss', 'double'), ('kiss', 'single')) + ((('fftw3', 'double'), ('fftw3', 'single')) if tier == 'thorough' else ()))]
HARNESS = [('h_fft', 'tune')]
ASSUMPTIONS = ['the clock increases from one reading to the next, measured times are positive and below 1e20']
