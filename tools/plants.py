# -*- coding: utf-8 -*-
"""Bugs planted to try the checks (see plant.py)."""
G = 'gcodeutils/gcoder.py'
T = 'gcodeutils/filter/translate.py'
R = 'gcodeutils/filter/relative_extrusion.py'
A = 'gcodeutils/filter/arc_optimizer.py'
K = 'gcodeutils/gcode_tempcal.py'
S = 'gcodeutils/stretch/stretch.py'
V3 = 'gcodeutils/stretch/vector3.py'
IT = 'gcodeutils/visit/iterator.py'
PA = 'gcodeutils/visit/pause_at_layer.py'

PLANTS = {}


def plant(id, prop, edits, needs, breaks, demo, also=()):
    PLANTS[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, also=list(also))


plant('C01-small-step-lines', 'C01', [(G, '''                                self.layer_idxs''' if False else '''                            cur_lines = []
                            cur_layer_has_extrusion = False
                            layer_id += 1
''', '''                            cur_layer_has_extrusion = False
                            layer_id += 1
'''), (G, '''                        prev_base_z = base_z

''', '''                        prev_base_z = base_z
                        cur_lines = []

''')], 'a change of height so small that no new layer is started',
      'the lines read since the last layer are dropped: writing the program back loses them', '''
g = read("""
G28
G1 Z0.2 F100
G1 X1 E1
G1 Z0.201
G1 X2 E2
G1 Z0.203
G1 X3 E3
""")
expect(write(g), ['G28', 'G1 Z0.2 F100', 'G1 X1 E1', 'G1 Z0.201', 'G1 X2 E2', 'G1 Z0.203', 'G1 X3 E3'])
expect(sum(len(l) for l in g.all_layers), 7)
''', ['C07'])

plant('C01-rank-after-layer', 'C01', [(G, '''                            layer_id += 1
                            layer_line = 0
                            last_layer_z = base_z
''', '''                            layer_id += 1
                            layer_line = layer_line and 1
                            last_layer_z = base_z
''')], 'a program with two layers, looking at the (layer, rank) index of its lines',
      'ranks in the layers start at 1 from the second layer on', '''
g = read("""
G1 Z0.2
G1 X1 E1
G1 Z0.4
G1 X2 E2
""")
for n in range(len(g)):
    layer, rank = g.idxs(n)
    expect(g.all_layers[layer][rank].raw if rank < len(g.all_layers[layer]) else None, g.lines[n].raw)
''')

plant('C02-offset-lost', 'C02', [(G, '''        self.offset_y = offset_y
        self.offset_z = offset_z

        self.current_e''', '''        self.offset_y = offset_y

        self.current_e''')], 'G92 Z then a move in Z, both appended one by one', 'the Z offset is forgotten between two appended lines', '''
g = build("""
G1 Z10
G92 Z2
G1 Z3
""")
near(g.current_z, 11)
near(g.abs_z, 3)
''')

plant('C02-relative-inch-mode', 'C02', [(G, '''                elif line.command == "G21":
                    imperial = False
                elif line.command == "G90":
                    relative = False
''', '''                elif line.command == "G90":
                    relative = False
                elif line.command == "G21":
                    imperial = relative and imperial
''')], 'back to millimetres while in relative positioning', 'G21 is ignored in relative mode: coordinates are still multiplied by 25.4', '''
g = build("""
G20
G1 X1
G91
G21
G1 X10
""")
near(g.current_x, 35.4)
''', ['C03'])

plant('C03-relative-retract', 'C03', [(G, '''                            new_e = line.e + offset_e
                            line.extruding = new_e > current_e
''' if False else '''                        if line.relative_e:
                            line.extruding = line.e > 0
                            total_e += line.e
                            current_e += line.e
''', '''                        if line.relative_e:
                            line.extruding = line.e > 0
                            total_e += line.e
                            current_e += abs(line.e) if line.x is not None else line.e
''')], 'a move with a retraction along X in relative extrusion (wipe)', 'the filament position grows on a wipe', '''
g = build("""
M83
G1 X1 E5
G1 X3 E-2
""")
near(g.current_e, 3)
''')

plant('C05-zero-words', 'C05', [(G, '''        if getattr(line, bit) is not None:
            format += ''', '''        if getattr(line, bit):
            format += ''')], 'a rewritten line with a coordinate at 0', 'X0 (or E0, Z0) disappears from a rewritten line', '''
from gcodeutils.gcoder import unsplit
g = build("""
G1 X10 Y10
G1 X10 Y0 F600
""")
l = g.lines[-1]
l.x = 12.
unsplit(l)
h = build(l.raw)
near(h.lines[0].y if h.lines[0].y is not None else 99, 0)
''', ['C10', 'C11', 'C13'])

plant('C05-arc-centre-inches', 'C05', [(G, '''        if code not in gcode_parsed_nonargs and bit[1]:
            setattr(line, code, unit_factor * float(bit[1]))
''', '''        if code not in gcode_parsed_nonargs and bit[1]:
            setattr(line, code, float(bit[1]) if code in "ij" else unit_factor * float(bit[1]))
''')], 'an arc in a program in inches', 'the centre of arcs is taken in millimetres in programs in inches', '''
g = build("""
G20
G1 X1 Y1
G2 X2 Y1 I0.5 J0
""")
near(g.lines[-1].i, 12.7)
''')

plant('C06-missing-word', 'C06', [(G, '''            if selfbit is not None and otherbit is None:
                return False
''', '''            if otherbit is None:
                continue
''')], 'comparing a line with one that lacks one of its words', 'the comparison ignores words missing on the right', '''
a = build("""
G28
G1 X1 Y2 F300
G1 X3
""")
b = build("""
G28
G1 X1 Y2
G1 X3
""")
expect(a == b, False)
expect(b == a, False)
expect(a.diff(b) is None, False)
''')

plant('C08-box-words', 'C08', [(G, '''                            if line.current_y is not None:
                                ymin_e = min(ymin_e, line.current_y)
                                ymax_e = max(ymax_e, line.current_y)
''', '''                            if line.current_y is not None:
                                ymin_e = min(ymin_e, line.current_y)
                                ymax_e = max(ymax_e, line.current_y if line.relative or line.y is None else line.y)
''')], 'a Y coordinate shifted by G92 at the back of the print', 'the extent of the print ignores G92 on one side', '''
g = read("""
G1 X0 Y10
G92 Y0
G1 X5 Y20 E1
G1 X5 Y5 E2
""")
near(g.ymax, 30)
near(g.depth, 15)
''')

plant('C08-retracted-start', 'C08', [(G, '''                            line.extruding = new_e > current_e
''', '''                            line.extruding = new_e > max(current_e, 0)
''')], 'filament pushed back after a retraction below E0', 'moves made while E is negative are not taken as pushing filament', '''
g = read("""
G92 E0
G1 E-5
G1 X50 Y60 E-1
G1 X10 Y10 E3
""")
near(g.xmax, 50)
near(g.xmin, 10)
''', ['C03', 'C07'])

plant('C09-pause-factor', 'C09', [(G, '''                        moveduration = P(line)
                        if moveduration:
                            moveduration /= 1000.0
                            totalduration += moveduration
''', '''                        moveduration = P(line)
                        if moveduration:
                            moveduration /= 1000.0
                            totalduration = max(totalduration, linebeginduration + moveduration) if f else moveduration
''')], 'pauses before any move with a feedrate', 'a pause replaces the time elapsed before the first feedrate', '''
g = read("""
G4 P3000
G4 P2000
G1 X10 F6000
""")
if g.duration.total_seconds() < 5:
    print('too short', g.duration)
    sys.exit(1)
''')

plant('C10-arcs', 'C10', [(T, '''        if opcode.command in move_gcodes:
''', '''        if opcode.command in move_gcodes and opcode.i is None:
''')], 'an arc given by its centre in an absolute program', 'arcs are not translated', '''
from gcodeutils.filter.translate import GCodeXYTranslateFilter
g = build("""
G90
G1 X10 Y10
G2 X20 Y10 I5 J0
G1 X30 Y30
""")
GCodeXYTranslateFilter(x=5, y=0).filter(g)
h = build('\\n'.join(write(g)))
near(h.lines[2].current_x, 25)
''', ['C11'])

plant('C10-back-to-absolute', 'C10', [(T, '''            self.absolute_distance_mode = True
            return
''', '''            self.absolute_distance_mode = self.absolute_distance_mode is None
            return
''')], 'a program going to relative positioning and back', 'absolute moves after a G91 ... G90 sequence are not translated', '''
from gcodeutils.filter.translate import GCodeXYTranslateFilter
g = build("""
G90
G1 X10 Y10
G91
G1 X1
G90
G1 X30 Y30
""")
GCodeXYTranslateFilter(x=5, y=2).filter(g)
h = build('\\n'.join(write(g)))
near(h.current_x, 35)
near(h.current_y, 32)
''')

plant('C11-dirty-lines', 'C11', [('gcodeutils/filter/filter.py', '''                try:
                    new_layer += opcode_filter_result
                except TypeError:
                    new_layer.append(opcode_filter_result)
            else:
                new_layer.append(opcode)
''', '''                try:
                    new_layer += opcode_filter_result
                except TypeError:
                    new_layer.append(opcode_filter_result)
            elif opcode.command or not dirty_layer:
                new_layer.append(opcode)
''')], 'a comment after a rewritten line', 'comments following a rewritten line are lost', '''
from gcodeutils.filter.translate import GCodeXYTranslateFilter
g = build("""
; start
G90
G1 X10 Y10
; middle
G1 X20
""")
GCodeXYTranslateFilter(x=5, y=2).filter(g)
expect([l for l in write(g) if l.startswith(';')], ['; start', '; middle'])
''', ['C13', 'C19'])

plant('C12-relative-tracking', 'C12', [(R, '''            elif opcode.x is None and opcode.y is None and opcode.z is None:
                self.current_extrusion_distance = Decimal()
''', '''            elif opcode.x is None and opcode.y is None:
                self.current_extrusion_distance = Decimal()
''')], 'G92 Z in the middle of a program in absolute extrusion', 'setting Z is taken as setting E to 0: the next move pushes all the filament again', '''
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
g = build("""
M82
G1 X1 E10
G92 Z0
G1 X2 E11
""")
GCodeToRelativeExtrusionFilter().filter(g)
h = build('\\n'.join(write(g)))
near(h.total_e, 11)
''')

plant('C12-set-position', 'C12', [(R, '''            if opcode.e is not None:
                self.current_extrusion_distance = Decimal(opcode.e)
            elif''', '''            if opcode.e:
                self.current_extrusion_distance = Decimal(opcode.e)
            elif''')], 'G92 with E0 and another axis', 'E0 is ignored when G92 also sets another axis', '''
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
g = build("""
M82
G1 X1 E10
G92 X0 E0
G1 X2 E1
""")
GCodeToRelativeExtrusionFilter().filter(g)
h = build('\\n'.join(write(g)))
near(h.total_e, 11)
''')

plant('C13-mode-twice', 'C13', [(R, '''            return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)

''', '''            return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND) if not self.current_extrusion_distance else None

''')], 'absolute extrusion selected again in the middle of a program', 'a later M82 is kept: the converted program goes back to absolute extrusion', '''
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
g = build("""
M82
G1 X1 E10
M82
G1 X2 E11
""")
GCodeToRelativeExtrusionFilter().filter(g)
expect('M82' in write(g), False)
''', ['C12'])

plant('C17-alignment', 'C17', [(A, '''        if any([error > ALIGNMENT_ERROR for error in radius_err]):
''', '''        if sum(radius_err) / len(radius_err) > ALIGNMENT_ERROR:
''')], 'a run of segments on a circle with one point off it', 'a corner away from the circle is flattened into the arc', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
text = ['G90', 'M82', 'M84', 'G1 X20 Y0 F1000']
for k in range(1, 14):
    r = 20.08 if k == 6 else 20
    text.append('G1 X%.4f Y%.4f' % (r * math.cos(k * .15), r * math.sin(k * .15)))
text += ['M84']
g = build('\\n'.join(text))
GCodeArcOptimizerFilter().filter(g)
out = write(g)
# the odd point is still visited
expect(any(l.startswith(text[9].split(' ')[0] + ' ' + text[9].split(' ')[1]) for l in out), True, out)
''')

plant('C18-correction', 'C18', [(A, '''            if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
''', '''            if (rel - 1) * circle.radius > EXTRUSION_CORRECTION_LIMIT * MAX_RADIUS:
''')], 'a small circle made of few segments in absolute extrusion', 'E is not set again after an arc which is longer than its segments: the next move retracts', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
text = ['G90', 'M82', 'M84', 'G1 X3 Y0 F1000 E1']
e = 1
for k in range(1, 9):
    e += .3
    text.append('G1 X%.4f Y%.4f E%.5f' % (3 * math.cos(k * .7), 3 * math.sin(k * .7), e))
text += ['G1 X0 Y0 E%.5f' % (e + .01), 'M84']
g = build('\\n'.join(text))
GCodeArcOptimizerFilter().filter(g)
out = write(g)
expect(len([l for l in out if l.startswith('G3')]), 1)
h = build('\\n'.join(out))
n = [l.raw for l in h.lines].index(text[-2])
near(h.lines[n].current_e - h.lines[n - 1].current_e, .01, 0.002)
''')

plant('C19-travel-and-filament', 'C19', [(A, '''        valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \\
            not any([line.e is not None for line in self.queue[1:]])
''', '''        valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \\
            not all([line.e is not None for line in self.queue[1:]])
''')], 'a travel along a circle followed by extrusion along the same circle', 'segments pushing filament are merged in an arc without filament', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
text = ['G90', 'M83', 'M84']
for k in range(0, 14):
    text.append('G1 X%.4f Y%.4f F1000%s' % (20 * math.cos(k * .15), 20 * math.sin(k * .15), ' E1' if k > 5 else ''))
text += ['M84']
g = build('\\n'.join(text))
GCodeArcOptimizerFilter().filter(g)
h = build('\\n'.join(write(g)))
near(h.total_e, 8, 0.1)
''', ['C18'])

plant('C19-last-line', 'C19', [(A, '''        if len(self.queue) > 0:
            layer += self.queue
''', '''        if len(self.queue) > 1:
            layer += self.queue
''')], 'a program ending with a single move after another kind of line', 'the last move of the program is lost', '''
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
g = build("""
G90
G1 X1 Y1
M106
G1 X0 Y0
""")
GCodeArcOptimizerFilter().filter(g)
expect(write(g)[-1], 'G1 X0 Y0')
''')

plant('C20-safe-bound', 'C20', [(K, '''        if self.ABSOLUTE_MIN_TEMPERATURE <= temperature <= self.ABSOLUTE_MAX_TEMPERATURE:
''', '''        if self.ABSOLUTE_MIN_TEMPERATURE < temperature < self.ABSOLUTE_MAX_TEMPERATURE:
''')], 'a temperature exactly at the bound of the safe range', 'a gradient starting at 250 or ending at 150 degrees misses its end temperature', '''
from gcodeutils.gcode_tempcal import GCodeStepTempGradient
g = read("""
G1 Z0.2
G1 X1 E1
G1 Z0.4
G1 X2 E2
G1 Z0.6
G1 X3 E3
""")
out = io.StringIO()
GCodeStepTempGradient(gcode=g, start_temp=250, end_temp=200, min_z_change=0.1, steps=5).write(out)
expect('M104 S250.0' in out.getvalue(), True)
''')

plant('C20-small-change', 'C20', [(K, '''                        if target_temp != self.last_target_temperature:
''', '''                        if self.last_target_temperature is None or abs(target_temp - self.last_target_temperature) >= .5:
''')], 'a continuous gradient of less than half a degree per layer, down to the last layers', 'small changes are saved up, so some layers miss their temperature', '''
from gcodeutils.gcode_tempcal import GCodeContinuousTempGradient
g = read('\\n'.join('G1 Z%.1f\\nG1 X%d E%d' % (.2 + .2 * i, i, i + 1) for i in range(30)))
out = io.StringIO()
GCodeContinuousTempGradient(gcode=g, start_temp=215, end_temp=210, min_z_change=0.1).write(out)
expect(out.getvalue().split('\\n').count('M104 S210.0'), 1)
expect('M104 S214.8' in out.getvalue(), True)
''')

plant('C21-blank-z', 'C21', [(K, '''                for line in layer:
                    print(line.raw, file=output_file)
''', '''                for line in layer:
                    if line.command or self.current_z <= self.zmax:
                        print(line.raw, file=output_file)
''')], 'comments in the park moves above the print', 'comments after the last printed layer are lost', '''
from gcodeutils.gcode_tempcal import GCodeStepTempGradient
g = read("""
G1 Z0.2
G1 X1 E1
G1 Z0.4
G1 X2 E2
G1 Z40
; end
""")
out = io.StringIO()
GCodeStepTempGradient(gcode=g, start_temp=240, end_temp=200, min_z_change=0.1, steps=5).write(out)
expect('; end' in out.getvalue().split('\\n'), True)
''')

plant('C22-pause-position', 'C22', [(PA, '''            layer_index = gcode_iterator_info.layer_index
''', '''            layer_index = max(0, layer_as_pyline_list.idx if hasattr(layer_as_pyline_list, 'idx') else
                              gcode.all_layers.index(layer_as_pyline_list))
''')], 'two layers with the same lines (relative moves, or a copied pattern)', 'the pause goes to the first of them', '''
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.pause_at_layer import PauseAtLayer
g = read(\"\"\"
G91
G1 Z0.2
G1 X1 E1
G1 Z0.2
G1 X1 E1
G1 Z0.2
G1 X1 E1
\"\"\")
GCodeIterator(g).accept(PauseAtLayer([2]))
out = write(g)
expect(out.index('M226'), 5, out)
''')

plant('C23-printed-count', 'C23', [(IT, '''            parsed_layer_number += 1
''', '''            parsed_layer_number = max(parsed_layer_number, layer_number) + 1
''')], 'layers without extrusion after a printed layer entered late', 'the number of layers that are only parsed jumps', '''
from gcodeutils.visit.iterator import GCodeIterator
from gcodeutils.visit.visitor import GCodeVisitor
seen = []
class V(GCodeVisitor):
    def will_visit_layer(self, layer, info):
        seen.append((info.layer_index, info.layer_number, info.is_printed))
g = read("""
G1 Z0.6
G1 X1 E1
G1 Z0.4
G1 X2 E2
G1 Z0.2
G1 X3 E3
G1 Z30
G1 X0
""")
GCodeIterator(g).accept(V())
for i, n, p in seen:
    if not p:
        expect(n, i)
''')

plant('C24-insert-order', 'C24', [(G, '''            # Insert gline at beginning of layer
            layer.insert(0, gline)
            # Insert gline at beginning of list
            self.lines.insert(start_index, gline)
            # Update indices arrays & global gcodes list
''', '''            # Insert gline at beginning of layer
            layer.insert(0, gline)
            # Insert gline at beginning of list
            self.lines.insert(start_index + i, gline)
            # Update indices arrays & global gcodes list
''')], 'two commands or more inserted at once', 'the flat list of lines has the inserted commands in reverse order', '''
g = read("""
G1 Z0.2
G1 X1 E1
G1 Z0.4
G1 X2 E2
""")
g.prepend_to_layer(['M1', 'M2'], 1)
expect([l.raw for l in g.lines], [l.raw for y in g.all_layers for l in y])
''')

plant('C25-neg-copy', 'C25', [(V3, '''    def __neg__(self):
        return Vector3(- self.x, - self.y, - self.z)
''', '''    def __neg__(self):
        return Vector3(- self.x, - self.y, self.z and - self.z or self.y)
''')], 'the opposite of a vector of the plane', 'the opposite of a vector with a null z gets its y as z', '''
from gcodeutils.stretch.vector3 import Vector3
expect(-Vector3(1., 2., 0.), Vector3(-1., -2., 0.))
''')

plant('C25-normalize', 'C25', [(V3, '''        magnitude = abs(self)
        if magnitude == 0.0:
            return self.copy()
        return self / magnitude
''', '''        magnitude = abs(self)
        if magnitude <= 0.01:
            return self.copy()
        self /= magnitude
        return self.copy()
''')], 'a normalised copy asked while the vector is used again', 'getting a normalised copy changes the vector itself', '''
from gcodeutils.stretch.vector3 import Vector3
v = Vector3(3., 4., 0.)
n = v.getNormalized()
expect(v, Vector3(3., 4., 0.))
''')

plant('C06-arc-centres', 'C06', [(G, '''        for bit in gcode_possible_arguments:
            selfbit''', '''        for bit in gcode_possible_arguments[:-2]:
            selfbit''')], 'two programs that differ by the centre of an arc', 'centres of arcs are not compared', '''
a = build("""
G1 X1 Y2
G2 X5 Y2 I2 J0
""")
b = build("""
G1 X1 Y2
G2 X5 Y2 I2 J5
""")
expect(a == b, False)
expect(a.diff(b) is None, False)
''')

plant('C07-set-height', 'C07', [(G, '''                        if line.command == "G92":
                            cur_z = line.z
''', '''                        if line.command == "G92" and not cur_z:
                            cur_z = line.z
''')], 'G92 Z in the middle of a program', 'the height set by G92 is ignored: the lines after it belong to the wrong layer', '''
g = read("""
G1 Z0.2
G1 X1 E1
G92 Z5
G1 X2 E2
""")
expect([len(l) for l in g.all_layers if l], [2, 2])
''')

plant('C07-last-lower', 'C07', [(G, '''                if cur_layer_has_extrusion and prev_z not in all_zs:
                    all_zs.add(prev_z)

            self.append_layer_id''', '''                if cur_layer_has_extrusion and (prev_z or 0) >= (last_layer_z or 0):
                    all_zs.add(prev_z)

            self.append_layer_id''')], 'the last layer is printed under the one before', 'the last layer is not counted as printed when the head comes down to it', '''
g = read("""
G1 Z0.4
G1 X1 E1
G1 Z0.8
G1 X2 E2
G1 Z0.2
G1 X3 E3
""")
expect(0.2 in g.all_zs, True)
expect(g.layers_count, 3)
''', ['C22', 'C23'])

plant('C09-short-moves', 'C09', [(G, '''                                moveduration = 2 * currenttravel / (lastf + f)  # This is currenttravel / mean(lastf, f)
''', '''                                moveduration = currenttravel / (lastf + f + f)
''')], 'moves too short to reach their feedrate', 'the duration of short moves is divided by three', '''
text = ['G1 X0 Y0 F6000']
for k in range(400):
    text += ['G1 X%d F%d' % (k + 1, 6000 - 1500 * (k % 2))]
g = GCode(text)
# 400 mm at 100 mm/s at most
if sum(l.duration for l in g.all_layers) < 3.9:
    print('too short', g.all_layers[0].duration)
    sys.exit(1)
''')

plant('C17-direction', 'C17', [(A, '''        p1 = complex(self.queue[2].current_x - center.x, self.queue[2].current_y - center.y)
''', '''        p1 = complex(self.queue[-1].current_x - center.x, self.queue[-1].current_y - center.y)
''')], 'a run of segments turning more than half a turn', 'arcs over half a turn are made in the opposite direction', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
text = ['G90', 'M82', 'M84']
for k in range(0, 14):
    text.append('G1 X%.4f Y%.4f F1000' % (20 * math.cos(k * .3), 20 * math.sin(k * .3)))
text += ['M84']
g = build('\\n'.join(text))
GCodeArcOptimizerFilter().filter(g)
arcs = [l.split(' ')[0] for l in write(g) if l.startswith(('G2', 'G3'))]
expect(arcs, ['G3'])
''', ['C18'])

plant('C18-low-flow', 'C18', [(A, '''            valid = all(abs((curext / extrusions['avg']['ratio']) - 1) < EXTRUSION_ERROR for curext in
''', '''            valid = all((curext / extrusions['avg']['ratio']) - 1 < EXTRUSION_ERROR for curext in
''')], 'one segment of a circle made with less filament than the others', 'an under-extruded segment is merged in the arc, which smooths its flow', '''
import math
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
text = ['G90', 'M83', 'M84', 'G1 X20 Y0 F1000 E1']
for k in range(1, 13):
    text.append('G1 X%.4f Y%.4f E%.5f' % (20 * math.cos(k * .15), 20 * math.sin(k * .15), .1 if k == 6 else .3))
text += ['M84']
g = build('\\n'.join(text))
GCodeArcOptimizerFilter().filter(g)
expect(any(' E0.1' in l for l in write(g)), True)
''')

plant('C24-prepend-ranks', 'C24', [(G, '''            self.line_idxs.insert(end_index + i, end_line + i + 1)
''', '''            self.line_idxs.insert(end_index + i, end_line + 1)
''')], 'two commands or more inserted at once', 'lines of the layer have the same rank', '''
g = read("""
G1 Z0.2
G1 X1 E1
G1 Z0.4
G1 X2 E2
""")
g.prepend_to_layer(['M1', 'M2'], 1)
expect([g.idxs(k) for k in range(len(g))], [(1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1)])
''')


SQ = '''
def square(side, kind='; perimeter external', width=0.4, more=(), at=(0, 0)):
    x, y = at
    t = ['G1 X%.3f Y%.3f F6000 ; move to first perimeter point' % (x, y), 'G1 E1 F2400 ; unretract']
    for a, b in ((side, 0), (side, side), (0, side), (0, 0)):
        t.append('G1 X%.3f Y%.3f E0.5 %s' % (x + a, y + b, kind))
    return t


def stretched(text, cls='Slic3rStretchFilter', **kw):
    import gcodeutils.stretch.stretch as st
    g = build('\\n'.join(text))
    getattr(st, cls)(**kw).filter(g)
    return write(g)


def xy(line):
    w = dict((k[0], float(k[1:])) for k in line.split(';')[0].split()[1:])
    return w['X'], w['Y']


HEAD = ['G90', 'M83', '; external perimeters extrusion width = 0.40mm', 'G1 Z0.3 F600']
'''

plant('C14-outer-once', 'C14', [(S, '''        for self.current_layer in self.gcode.all_layers:
            self.next_external_perimeter_is_outer = True
            self.current_type_line''', '''        self.next_external_perimeter_is_outer = True
        for self.current_layer in self.gcode.all_layers:
            self.current_type_line''')], 'a second layer', 'the outer wall of the second layer is stretched as a hole', SQ + '''
import gcodeutils.stretch.stretch as st
g = read('\\n'.join(['G90', 'M83', '; external perimeters extrusion width = 0.40mm', 'G1 Z0.3 F600'] + square(10) + ['G1 Z0.6 F600']
         + square(10) + ['G1 X9 Y9 F6000', 'M84']))
st.Slic3rStretchFilter(cross_limit_distance_over_edge_width=100.).filter(g)
out = [l for l in write(g) if ' E0.' in l or ' E0.4' in l]
near(max(xy(l)[0] for l in out), 10 + .04 * .5 ** .5, 2e-3)
''')

plant('C14-cap', 'C14', [(S, '''        if relativeStretchLength > 1.0:
''', '''        if relativeStretchLength > 2.0:
''')], 'a sharp point, where both sides go in the same direction', 'points are moved by up to 1.6 times the limit', SQ + '''
text = HEAD + ['G1 X0 Y0 F6000 ; move to first perimeter point', 'G1 E1 F2400 ; unretract', 'G1 X8 Y0.1 E0.5 ; perimeter external',
               'G1 X0 Y0.2 E0.5 ; perimeter external', 'G1 X0 Y0 E0.5 ; perimeter external', 'G1 X9 Y9 F6000']
a = stretched(text, stretch_strength=5)
near(xy(a[6])[0], 8.2, 3e-3)
''')

plant('C14-retract', 'C14', [(S, '''                elif 'unretract' not in line.raw:
''', '''                elif 'retract' not in line.raw:
''')], 'a retraction at the end of a wall', 'the wall lasts until the line after the retraction: its last point is met twice', SQ + '''
a = stretched(HEAD + square(10) + ['G1 E-1 F2400 ; retract', 'G1 X20 Y20 F6000 ; move to first perimeter point'] + square(10, at=(20, 20))[1:]
              + ['G1 X9 Y9 F6000'])
b = stretched(HEAD + square(10) + ['G1 X20 Y20 F6000 ; move to first perimeter point'] + square(10, at=(20, 20))[1:] + ['G1 X9 Y9 F6000'])
expect([xy(l) for l in a if ' X' in l], [xy(l) for l in b if ' X' in l])
''', ['C16'])

plant('C15-shrink', 'C15', [(S, '''            result.e = original_line.e * (1 - abs(absoluteStretch))
''', '''            result.e = original_line.e * (1 - abs(relativeStretch))
''')], 'any wall, looking at the amount of filament', 'filament shrinks by the relative displacement, the wall is nearly empty', SQ + '''
a = stretched(HEAD + square(10) + ['G1 X9 Y9 F6000'], cross_limit_distance_over_edge_width=100.)
e = [float(w[1:]) for l in a for w in l.split(';')[0].split() if w.startswith('E0.')]
expect(len(e), 4)
expect(min(e) > .45, True)
''')

plant('C14-cura-joined', 'C14', [(S, '''                elif 'TYPE:WALL-INNER' in line.raw:
                    self.stop_loop(line)
''', '''                elif 'TYPE:WALL-INNER' in line.raw:
''')], 'an inner wall begun right after an outer one without a travel in between',
      'the inner wall is taken as the end of the outer wall', SQ + '''
text = ['G90', 'M83', 'G0 F9000 X0 Y0 Z0.3', ';TYPE:WALL-INNER']
ring = ['G1 X10 Y0 E1', 'G1 X10 Y10 E1', 'G1 X0 Y10 E1', 'G1 X0 Y0 E1']
a = stretched(text + ring + [';TYPE:FILL', 'G0 X3 Y3'], 'CuraStretchFilter', stretch_strength=3, cross_limit_distance_over_edge_width=100.)
b = stretched(text[:3] + [';TYPE:WALL-OUTER'] + ring + text[3:] + ring + [';TYPE:FILL', 'G0 X3 Y3'], 'CuraStretchFilter', stretch_strength=3,
              cross_limit_distance_over_edge_width=100.)
expect([xy(l) for l in a[4:8]], [xy(l) for l in b[9:13]])
''')

plant('C14-fade', 'C14', [(S, '''        self.crossLimitDistanceFraction = self.crossLimitDistance / 3
''', '''        self.crossLimitDistanceFraction = self.edgeWidth * 5 / 3
''')], 'the option of the limit changed from its default, and sides longer than a third of 5 widths',
      'the part across a side begins to disappear at 5/3 widths instead of a third of the limit', SQ + '''
a = stretched(HEAD + square(3) + ['G1 X9 Y9 F6000'], cross_limit_distance_over_edge_width=30., stretch_strength=5)
near(xy(a[7])[0], 3 + .2 * .5 ** .5, 2e-3)
''')

plant('C14-seam', 'C14', [(S, '''            if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                return lineIndex + 1
''', '''            if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                return lineIndex
''')], 'the last point of a Slic3r wall, with a neighbour further than a third of the limit',
      'the point where the wall closes is taken as its own neighbour, so it is not limited', SQ + '''
a = stretched(HEAD + square(10) + ['G1 X9 Y9 F6000'], stretch_strength=5)
for l in a[5:-1]:
    for v in (xy(l) if ' X' in l else ()):
        near(v, round(v), 1e-6)
''')

plant('C14-lookahead', 'C14', [(S, '''                            self.new_perimeter(line)
                            break
''', '''                            self.new_perimeter(line)
''')], 'an extra perimeter printed before an external one', 'extra perimeters are stretched with the ratio of holes', SQ + '''
a = stretched(HEAD + square(10, '; perimeter') + square(10, at=(20, 20)) + ['G1 X9 Y9 F6000'], cross_limit_distance_over_edge_width=100., stretch_strength=5)
near(xy(a[4])[0], -.22 * .5 ** .5, 2e-3)
''')


plant('C16-extra-stop', 'C16', [(S, '''                    if self.current_type_line in (self.EXTRA_PERIMETER, self.EXTERNAL_PERIMETER):
                        logging''', '''                    if self.current_type_line == self.EXTERNAL_PERIMETER:
                        logging''')], 'infill printed right after an extra (not external) perimeter', 'infill is stretched as a wall', SQ + '''
fill = ['G1 X1 Y1 F6000 ; move to first infill point', 'G1 X9 Y1 E1 ; infill', 'G1 X9 Y9 E1 ; infill']
a = stretched(HEAD + square(10, '; perimeter') + fill, cross_limit_distance_over_edge_width=100.)
expect([xy(l) for l in a[-3:]], [(1, 1), (9, 1), (9, 9)])
''')

plant('C16-cura-skin', 'C16', [(S, '''    def stop_loop(self, line):
        if self.current_type_line != self.UNKNOWN:
''', '''    def stop_loop(self, line):
        if self.current_type_line == self.EXTERNAL_PERIMETER:
''')], 'travels or infill after a TYPE:SKIN section', 'travels and infill are stretched with the skin', SQ + '''
text = ['G90', 'M83', 'G0 F9000 X0 Y0 Z0.3', ';TYPE:SKIN', 'G1 X10 Y0 E1', 'G1 X10 Y10 E1', 'G1 X0 Y10 E1', 'G1 X0 Y0 E1',
        ';TYPE:FILL', 'G0 X3 Y3', 'G1 X8 Y3 E1', 'G1 X8 Y4 E1']
a = stretched(text, 'CuraStretchFilter', cross_limit_distance_over_edge_width=100.)
expect([xy(l) for l in a[-3:]], [(3, 3), (8, 3), (8, 4)])
''')

CLI = '''
def tool(name, args, text, end='\\n', stdin=True):
    d = tempfile.mkdtemp(dir='/tmp')
    i, o = os.path.join(d, 'in'), os.path.join(d, 'out')
    open(i, 'w').write(text.strip('\\n') + end)
    env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'gcodeutils.' + name] + args + [i, o], env=env, stderr=subprocess.DEVNULL)
    got = open(o).read() if os.path.exists(o) else None
    same = open(i).read() == text.strip('\\n') + end
    for f in (i, o):
        if os.path.exists(f):
            os.remove(f)
    os.rmdir(d)
    return r.returncode, (got or '').split('\\n')[:-1], same


'''
M = 'gcodeutils/gcode_mod.py'
O = 'gcodeutils/gcode_optimize_arcs.py'
GS = 'gcodeutils/gcode_stretch.py'
SP = 'cura_plugins/stretch_plugin.py'

plant('C26-one-filter', 'C26', [(M, '''    if args.e:
''', '''    elif args.e:
''')], 'a translation and -e together', 'the program is moved but its extrusion is not converted', CLI + '''
r, out, same = tool('gcode_mod', ['-x', '5', '-e'], 'G90\\nM82\\nG1 X1 E1\\nG1 X2 E3')
expect('M83' in out, True, out)
''')

plant('C26-stop-early', 'C26', [(M, '''    if args.p is not None:
''', '''    if args.p is not None and not (args.e and args.p > len(gcode.all_zs) // 2):
''')], '-e and -p together, with a layer in the upper half', 'the pause is lost', CLI + '''
r, out, same = tool('gcode_mod', ['-e', '-p', '2'], 'G90\\nM82\\nG1 Z0.2\\nG1 X1 E1\\nG1 Z0.4\\nG1 X2 E3\\nG1 Z0.6\\nG1 X2 E5')
expect('M226' in out, True, out)
''')

plant('C27-arcs-in-place', 'C27', [(O, '''    gcode.write(open(args.infile.name, 'w') if args.inplace is True and args.infile != sys.stdin else args.outfile)
''', '''    gcode.write(open(args.infile.name, 'r+') if args.inplace is True and args.infile != sys.stdin else args.outfile)
''')], '-i on a program that gets shorter', 'the end of the former program is left after the new one', CLI + '''
d = tempfile.mkdtemp(dir='/tmp')
i = os.path.join(d, 'in')
text = 'G90\\n\\n\\n\\n   G1 X1 E1   \\nG1 X3 E4\\n; the end\\n'
open(i, 'w').write(text)
env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
subprocess.run([sys.executable, '-W', 'ignore', '-m', 'gcodeutils.gcode_optimize_arcs', '-i', i], env=env, stderr=subprocess.DEVNULL)
got = [l for l in open(i).read().split('\\n') if l]
os.remove(i)
os.rmdir(d)
expect(len(got), 4, got)
''')

plant('C27-last-line', 'C27', [(M, '''    gcode = GCode(args.infile.readlines())
''', '''    gcode = GCode(args.infile.read().split('\\n')[:-1])
''')], 'a program without a final end of line', 'its last line is lost', CLI + '''
r, out, same = tool('gcode_mod', ['-x', '5'], 'G90\\nG1 X1 E1\\nM84', end='')
expect(out[-1:], ['M84'])
''')

plant('C27-both-axes', 'C27', [(M, '''    if args.x is not None or args.y is not None:
''', '''    if args.x is not None and args.y is not None:
''')], 'only one of -x and -y', 'the program is not moved at all', CLI + '''
r, out, same = tool('gcode_mod', ['-y', '5'], 'G90\\nG1 X1 Y1 E1\\nM84')
expect(' Y6.000' in '\\n'.join(out), True, out)
''')

plant('C28-profile-place', 'C28', [(GS, '''            if 'CURA_PROFILE_STRING' in opcode.raw:
                return True
    return False
''', '''            if 'CURA_PROFILE_STRING' in opcode.raw:
                return True
        if layer:
            break
    return False
''')], 'a Cura program, whose profile is its last line', 'the program is taken for one of Slic3r: nothing is stretched', CLI + '''
import base64, zlib
prof = base64.b64encode(zlib.compress(b'nozzle_size=0.4\\x08\\x0c')).decode()
text = ['G90', 'M83', 'G0 F9000 X0 Y0 Z0.3', ';TYPE:WALL-OUTER', 'G1 X1 Y0 E1', 'G1 X1 Y1 E1', 'G1 X0 Y1 E1', 'G1 X0 Y0 E1', ';TYPE:FILL', 'G0 X3 Y3', 'G0 Z5',
        ';CURA_PROFILE_STRING:' + prof]
r, out, same = tool('gcode_stretch', ['--stretch_strength=3', '--cross_limit_distance_over_edge_width=100'], '\\n'.join(text))
l = [l for l in out if 'X' in l and 'E' in l][1]
x = float([w for w in l.split() if w[0] == 'X'][0][1:])
near(x, 1 + 3 * .1 * .4 * .5 ** .5, 3e-3)
''')

plant('C28-plugin-absolute', 'C28', [(SP, '''GCodeToRelativeExtrusionFilter().filter(gcode)
''', '''if any(line.command == 'M82' for line in gcode.lines):
    GCodeToRelativeExtrusionFilter().filter(gcode)
''')], 'a program that never selects absolute extrusion explicitly, in the Cura plugin', 'totals are scaled as if they were lengths', '''
def plugin(name, text, **kw):
    f = tempfile.NamedTemporaryFile('w', suffix='.gcode', dir='/tmp', delete=False)
    f.write('\\n'.join(text) + '\\n')
    f.close()
    exec(compile(open('cura_plugins/%s.py' % name).read(), name, 'exec'), dict(filename=f.name, **kw))
    out = open(f.name).read().split('\\n')
    os.remove(f.name)
    return [l for l in out if l]


text = ['G90', 'G0 F9000 X0 Y0 Z0.3', 'G1 X-1 Y-1 E1', 'G1 X0 Y0 E2', ';TYPE:WALL-OUTER', 'G1 X1 Y0 E3', 'G1 X1 Y1 E4', 'G1 X0 Y1 E5', 'G1 X0 Y0 E6', ';TYPE:FILL', 'G0 X3 Y3']
out = plugin('stretch_plugin', text, stretch_strength=1.)
last = [l for l in out if ' E' in l][-1]
near(float([w for w in last.split() if w[0] == 'E'][0][1:]), 1, .2)
''')

plant('C29-open-first', 'C29', [(O, '''    gcode = GCode(args.infile.readlines())  # pylint: disable=redefined-outer-name
''', '''    source = args.infile.readlines()
    if args.inplace and args.infile != sys.stdin:
        args.outfile = open(args.infile.name, 'w')
    gcode = GCode(source)  # pylint: disable=redefined-outer-name
'''), (O, '''    gcode.write(open(args.infile.name, 'w') if args.inplace is True and args.infile != sys.stdin else args.outfile)
''', '''    gcode.write(args.outfile)
''')], 'a program which can not be parsed (a word without its number), modified in place', 'the program is emptied', '''
d = tempfile.mkdtemp(dir='/tmp')
i = os.path.join(d, 'in')
text = 'G90\\nG1 X1 E1\\nG1 X-\\n; the end\\n'
open(i, 'w').write(text)
env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'gcodeutils.gcode_optimize_arcs', '-i', i], env=env, stderr=subprocess.DEVNULL)
got = open(i).read()
os.remove(i)
os.rmdir(d)
if r.returncode:
    expect(got, text)
''')

plant('C29-plugin-early', 'C29', [(SP, '''GCodeToRelativeExtrusionFilter().filter(gcode)
CuraStretchFilter(stretch_strength=stretch_strength).filter(gcode)  # pylint: disable=undefined-variable

with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
    gcode.write(gcode_file)
''', '''with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
    GCodeToRelativeExtrusionFilter().filter(gcode)
    CuraStretchFilter(stretch_strength=stretch_strength).filter(gcode)  # pylint: disable=undefined-variable
    gcode.write(gcode_file)
''')], 'a program whose profile is damaged, in the Cura plugin', 'the program is emptied', '''
d = tempfile.mkdtemp(dir='/tmp')
i = os.path.join(d, 'in')
text = 'G90\\nG1 X1 E1\\n;CURA_PROFILE_STRING:x\\n'
open(i, 'w').write(text)
failed = False
try:
    exec(compile(open('cura_plugins/stretch_plugin.py').read(), 'plugin', 'exec'), dict(filename=i, stretch_strength=1.))
except Exception:
    failed = True
got = open(i).read()
os.remove(i)
os.rmdir(d)
if failed:
    expect(got, text)
''')

plant('C04-plus', 'C04', [(G, '''|([%s])([-+]?[0-9]*\\.?[0-9]*)" % to_parse)
''', '''|([%s])(-?[0-9]*\\.?[0-9]*)" % to_parse)
''')], 'a coordinate with a plus sign', 'the coordinate is ignored', '''
g = read('G90\\nG1 X1 Y2\\nG1 X+5 Y3')
expect(g.lines[2].x, 5.)
''')

plant('C04-semicolon', 'C04', [(G, '''gcode_exp = re.compile("\\([^\\(\\)]*\\)|''', '''gcode_exp = re.compile("\\([^\\(\\);]*\\)|''')],
      'a semicolon inside of a comment in parentheses, before the last words', 'the words after it are lost', '''
g = read('G90\\nG1 X1 Y2\\nG1 X5 (a; b) Y3')
expect(g.lines[2].y, 3.)
''')

plant('C30-filament', 'C30', [(G, '''    print("Filament used: %0.02fmm" % gcode.filament_length)
''', '''    print("Filament used: %0.02fmm" % gcode.total_e)
''')], 'a program that ends after a retraction', 'the retracted filament is not counted', '''
import gcodeutils.gcoder as gc
f = tempfile.NamedTemporaryFile('w', suffix='.gcode', dir='/tmp', delete=False)
f.write('G90\\nG1 X1 Z0.2\\nG1 X2 E5\\nG1 E4\\n')
f.close()
sys.argv = ['gcoder', f.name]
old, sys.stdout = sys.stdout, io.StringIO()
try:
    gc.main()
    out = sys.stdout.getvalue()
finally:
    sys.stdout = old
    os.remove(f.name)
expect('Filament used: 5.00mm' in out, True, out)
''')

plant('C30-layers', 'C30', [(G, '''        return len(self.all_zs)
''', '''        return len(self.all_layers) - 1
''')], 'travels between layers, or lines before the first one', 'they are counted as layers', '''
g = read('G28\\nG1 Z0.2\\nG1 X2 E5\\nG1 Z5\\nG1 X1\\nG1 Z0.4\\nG1 X3 E7')
expect(g.layers_count, 2)
''')

plant('C31-layer-done', 'C31', [(G, '''                            all_layers.append(new_layer)
                            if cur_layer_has_extrusion and prev_z not in all_zs:
''', '''                            if layer_callback is not None:
                                layer_callback(self, len(all_layers))
                            all_layers.append(new_layer)
                            if cur_layer_has_extrusion and prev_z not in all_zs:
'''), (G, '''                            last_layer_z = base_z
                            if layer_callback is not None:
                                layer_callback(self, len(all_layers) - 1)
''', '''                            last_layer_z = base_z
''')], 'a callback that looks at the layer it is told', 'the layer is told before it is there', '''
seen = []
def told(g, n):
    seen.append((n, len(g.all_layers)))
GCode('G1 Z0.2\\nG1 X2 E5\\nG1 Z0.4\\nG1 X3 E7\\nG1 Z0.6\\nG1 X3 E8'.split('\\n'), layer_callback=told)
expect(all(n < k for n, k in seen), True, seen)
''')

plant('C31-light-state', 'C31', [(G, '''                if line_callback:
                    line_callback(line)
''', '''                if line_callback:
                    line_callback(true_line)
''')], 'a light program read with a callback', 'the lines told have no state', '''
from gcodeutils.gcoder import LightGCode
seen = []
LightGCode('G90\\nG1 X2 E5\\nG1 X3'.split('\\n'), line_callback=lambda l: seen.append(l.current_x))
expect(seen[1:], [2., 3.], seen)
''')

plant('C02-home-zero', 'C02', [(G, '''    def _set_home_pos(self, home_pos):
        if home_pos:
''', '''    def _set_home_pos(self, home_pos):
        if home_pos and all(home_pos):
''')], 'a home position with a coordinate at 0', 'the home position is ignored', '''
g = GCode('G28\\nG91\\nG1 X1'.split('\\n'), home_pos=[10., 0., 5.])
expect(g.current_x, 11.)
''')

plant('C32-pause-seconds', 'C32', [(G, '''                        if moveduration:
                            moveduration /= 1000.0
                            totalduration += moveduration
''', '''                        moveduration /= 1000.0
                        totalduration += moveduration
''')], 'a pause given in seconds or without duration', 'the tools fail', '''
read('G90\\nG4 S1\\nG1 X1')
''')

plant('C33-queue', 'C33', [(A, '''    def __init__(self):
        self.queue = []

    @staticmethod
''', '''    @staticmethod
''')], 'a program handled after one that ends with moves that could be an arc', 'moves of the former program appear in the latter', '''
from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
text = 'G90\\nM83\\nG1 X1 Y1 E1\\nG1 X2 Y3 E1\\nG1 X4 Y5 E2'
out = []
for k in range(2):
    g = read(text)
    GCodeArcOptimizerFilter().filter(g)
    out.append(write(g))
expect(out[1], out[0])
''')

plant('C33-temperature', 'C33', [(K, '''        self.last_target_temperature = None
''', ''), (K, '''    ABSOLUTE_MAX_TEMPERATURE = 250
''', '''    ABSOLUTE_MAX_TEMPERATURE = 250

    last_target_temperature = None
'''), (K, '''                            self.last_target_temperature = target_temp
''', '''                            GCodeTempGradient.last_target_temperature = target_temp
''')], 'a program handled after one whose last temperature is its first', 'the first temperature is missing', '''
from gcodeutils.gcode_tempcal import GCodeStepTempGradient
out = []
text = 'G90\\nG1 Z0.2\\nG1 X1 E1\\nG1 Z5\\nG1 X2 E2\\nG1 Z9\\nG1 X3 E3'
for k in range(2):
    f = io.StringIO()
    a, b = ((220., 200.), (200., 220.))[k]
    GCodeStepTempGradient(gcode=read(text), start_temp=a, end_temp=b, min_z_change=1., steps=2).write(f)
    out.append([l for l in f.getvalue().split('\\n') if 'M104' in l])
expect(out[1][0], 'M104 S200.0', out)
''')

plant('C33-width', 'C33', [(S, '''        self.edgeWidth = 0.4
        self.extruderActive''', '''        self.extruderActive'''), (S, '''    def __init__(self, **kwargs):
        self.extruderActive''' if False else '''    INNER_EDGE_START_MARKER = LOOP''', '''    edgeWidth = 0.4
    INNER_EDGE_START_MARKER = LOOP'''), (S, '''        self.edgeWidth = edge_width
''', '''        StretchFilter.edgeWidth = edge_width
'''), (S, '''            self.set_edge_width(0.4)


class CuraStretchFilter''', '''            self.set_edge_width(self.edgeWidth)


class CuraStretchFilter''')], 'a program of Slic3r without width, stretched after one with another width', 'walls are stretched for the other width', '''
from gcodeutils.stretch.stretch import Slic3rStretchFilter
wall = """G90
M83
G1 Z0.3 F900
G1 X1 Y1 F600 ; move to first perimeter point
G1 X1.5 Y1 E1 ; perimeter external
G1 X1.5 Y1.5 E1 ; perimeter external
G1 X1 Y1.5 E1 ; perimeter external
G1 X1 Y1 E1 ; perimeter external
G1 X4 Y4 ; move to first infill point
"""
out = []
for t in (wall, wall + '; external perimeters extrusion width = 0.80mm\\n', wall):
    g = read(t)
    Slic3rStretchFilter().filter(g)
    out.append(write(g))
expect(out[2], out[0])
''')

plant('C34-significant', 'C34', [(G, '''            format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
''', '''            format += " {}{:.9g}" if bit == 'e' else " {}{:.3f}"
''')], 'a rewritten move pushing less than 0.0001 mm', 'the number has an exponent, which printers do not understand', '''
from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
g = read('G90\\nG1 X1 E2\\nG1 X-5 Y3 E2.00004')
GCodeToRelativeExtrusionFilter().filter(g)
expect(any('e-' in l for l in write(g)), False, write(g))
''')
