"""C21: temperature calibration keeps every line of the program and only adds temperature changes at layer starts."""
from fractions import Fraction

from . import c20
from .common import Cmd, render

BOUNDS = ('programs of 2 or 3 layers at symbolic heights with up to 2 free lines per program among comments, temperatures, '
          'travel, retraction, blank, unknown, mode and unit lines; through the command line (discrete and continuous, with '
          'and without options), the API and the Cura plugin')
ASSUMPTIONS = ['layers are at least 0.05 mm apart']
MODULES = ('gcodeutils.gcode_tempcal',)
OPTS = dict(max_ticks=4000, query_ms=4000)
BUDGET = {'quick': 100, 'thorough': 700}
FREE = ['; comment M104 S1', 'M104 S200', 'M109 S210 ; wait', 'G1 E-1', '', 'hello', 'M83', 'G1 X1 Y1', 'T0', '  G1 X3 Y3 E9  ',
        'G4 P100', 'M106 S255', '(x)', 'G92 E0', 'N5 M105', 'G1 Z0.35', 'G1 X2 Y2 Z0.2 E3', 'G91', 'G20', 'M84']
HOW = ['api', 'apic', 'cli', 'clic', 'cli2', 'plugin']


def cases(tier):
    return [dict(how=w, shape=s, n=1 if tier == 'quick' else 2) for w in HOW for s in (('LLP', 'LHL') if tier == 'quick' else
            ('LL', 'LHL', 'LLP', 'LLL'))]


def run(h, case):
    text = program(h, case['shape'])
    for k in range(case['n']):
        l = h.choose(FREE, 'free%d' % k)
        text.insert(h.choose(range(1, len(text) + 1), 'at%d' % k), l)
    keep = [l.strip() for l in text if l.strip()]
    how = case['how']
    try:
        lines = execute(h, text, how)
    except RuntimeError:
        # too small: allowed only when nothing is above the minimum height (decided by C20)
        return
    out = [l for l in lines if l.strip()]
    # walk: everything not in the program must be a temperature change at the start of a layer
    runs, printed = c20.analyse(h, keep)
    starts = set()
    n = 0
    for z, ls in runs:
        if z is not None:
            starts.add(n)
        n += len(ls)
    i = 0
    for l in out:
        if i < len(keep) and l == keep[i]:
            i += 1
            continue
        c = Cmd(l, h.read_num)
        h.check(c.op == 'M104', 'line changed or added: %s' % c.op)
        h.check(i in starts, 'temperature set inside of a layer')
    h.check(i == len(keep), 'lines lost')
    h.observe(len(out))


def program(h, shape):
    """as C20's programs, with one symbolic step only"""
    text = ['G28', 'G90', 'M82', 'G92 E0']
    z = Fraction(0)
    e = 0
    for k, s in enumerate(shape):
        e += 1
        if s == 'L':
            z = z + (h.num('dz', Fraction(1, 20), 2).v if k == 0 else Fraction(2, 5))
            text += ['G1 Z' + h.lin(z).t, 'G1 X10 Y%d E%d' % (k, e), 'G1 X0 Y%d' % k]
        else:
            text += ['G1 Z' + h.lin(z + Fraction(3, 2)).t, 'G1 X5 Y5']
            if s == 'H':
                text += ['G1 Z' + h.lin(z).t, 'G1 X7 Y7 E%d' % e]
    return text


def execute(h, text, how):
    if how in ('cli', 'clic', 'cli2'):
        args = {'cli': ['240', '200'], 'clic': ['-c', '-z', '0.1', '200', '240'],
                'cli2': ['--min_z_change', '0.3', '-s', '4', '190', '230']}[how]
        return h.cli('gcodeutils.gcode_tempcal', args, text)
    if how == 'plugin':
        import os
        path = os.path.join(h.scratch(), 'p.gcode')
        with open(path, 'w') as f:
            f.write('\n'.join(text) + '\n')
        h.w.run_script(os.path.join(h.w.repo, 'cura_plugins', 'tempcal_plugin.py'),
                       dict(filename=path, start_temp=230., end_temp=190., min_z_change=0.1, steps=5))
        import gc
        gc.collect()
        with open(path) as f:
            return f.read().split('\n')[:-1]
    mod = h.load('gcodeutils.gcode_tempcal')
    g = h.gcoder.GCode(text)
    cls = mod.GCodeContinuousTempGradient if how == 'apic' else mod.GCodeStepTempGradient
    out = c20.Out()
    cls(gcode=g, start_temp=240, end_temp=200, min_z_change=0.1, steps=5).write(out)
    return out.lines()
