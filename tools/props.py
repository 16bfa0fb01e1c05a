NOTE = ('Every value of the symbolic inputs, on every path, within the bounds stated in the evidence file (nothing is claimed '
        'outside of them). Floats are modelled as exact reals (assertions carry slack; every counterexample is replayed on the '
        'unpatched code with real floats before it is reported); trusts z3 and the symbolic interpreter of symx, which is '
        'cross-checked at every run by executing a model of explored paths on the real code. ')


def P(id, title, statement, quant, why, mech, observe, note, over=('inputs', 'programs')):
    assert len(title) <= 80, title
    files = sorted({w.split(':')[0] for _, w in mech})
    return dict(id=id, title=title, statement=statement, quant=quant, why=why, mech=mech, observe=list(observe), note=NOTE + note,
                over=list(over), files=files)


G = 'gcodeutils/gcoder.py:'
T = 'gcodeutils/filter/translate.py:'
R = 'gcodeutils/filter/relative_extrusion.py:'
A = 'gcodeutils/filter/arc_optimizer.py:'
K = 'gcodeutils/gcode_tempcal.py:'
S = 'gcodeutils/stretch/stretch.py:'
V = 'gcodeutils/visit/'

PROPS = [
    P('C01', 'Reading a program and writing it back keeps every line',
      'Writing back a program that was read (or built line by line) yields exactly its non-blank lines, in order, stripped of '
      'surrounding blanks and otherwise unchanged, whatever layers it is cut into. The flat list of lines, the lines grouped by '
      'layer and the (layer, rank in layer) index of every line number describe the same lines.',
      'every program over moves, modes, G92/G28, tool changes, comments, unknown and blank lines, with any Z values',
      'tests compare a handful of fixed files with an equality that ignores comments; no test checks the index',
      [('layer building', G + 'GCode._preprocess'), ('append', G + 'GCode.append'), ('write', G + 'GCode.write')],
      ['GCode.write', 'GCode.lines', 'GCode.all_layers', 'GCode.idxs'], 'Programs of 4 (quick) or 6 (thorough) lines plus appended lines.'),
    P('C02', 'Head position tracking follows the machine semantics of every command',
      'After any history of moves (G0-G3), homing (G28 on some or all axes), G92, absolute/relative modes and inch/millimetre '
      'modes, the X/Y/Z position of the program, the position recorded on each line, the coordinates in the current work offset, '
      'the modes, the tool and the feedrate are those of a machine executing the commands.',
      'every history of 4 to 5 commands with arbitrary coordinates from an arbitrary reached state',
      'tests never look at the tracked position; defects show in combinations of modes, offsets, units and homing',
      [('position tracking', G + 'GCode._preprocess')],
      ['GCode.current_pos', 'GCode.abs_pos', 'line.current_x/y/z', 'line.current_f'],
      'Oracle: a small reference machine (symx/oracle.py).', ('histories', 'inputs')),
    P('C03', 'Filament accounting follows the machine semantics of every command',
      'After any history of moves with and without E, M82/M83, G90/G91, G92, units, tool changes and homing, the total filament '
      'pushed, its highest value (the filament length), the filament position and its coordinate in the current offset are those of '
      'a machine executing the commands. A move is flagged as extruding exactly when it pushes filament.',
      'every history of 5 to 6 commands with arbitrary E values, read at once or line by line',
      'tests only sample a few fixed files and never combine offsets, modes and retractions',
      [('extrusion tracking', G + 'GCode._preprocess')],
      ['GCode.total_e', 'GCode.max_e', 'GCode.current_e', 'GCode.filament_length', 'line.extruding', 'line.current_e'],
      'The flag is left open for amounts within 1e-6 mm of 0 after an offset.', ('histories', 'inputs')),
    P('C04', 'Lines are read the same way whatever their layout',
      'The command, coordinates, feedrate, tool, modes and position read from a line don\'t depend on letter case, number of the line, checksum, comments '
      'in parentheses before, between or after the words, comments after a semicolon, separators, order of the words, unknown words, plus signs, surrounding blanks '
      'or end of line; nothing is read from comments.',
      'lines of 15 kinds with any values in every combination of layouts, read at once or one by one',
      'tests only read the layout of two slicers',
      [('words', G + 'split'), ('coordinates', G + 'parse_coordinates'), ('parameters', G + 'find_specific_code'), ('reading', G + 'GCode._preprocess')],
      ['GCode(lines)', 'GCode.append'], 'No blank between a letter and its number; commands without leading zeros.', ('inputs', 'programs')),
    P('C05', 'Rewriting a line from its coordinates gives back these coordinates',
      'A movement or G92 line whose coordinates were read, then possibly changed, added or removed, and which is rewritten as text '
      'keeps its command and its comment (after a semicolon), has exactly the remaining words, and reads back with the same values (3 decimals, 5 for E, in the unit of '
      'the program).',
      'every pattern of words on G0-G3 and G92, every value, in millimetres and inches, absolute or relative',
      'tests rewrite a few lines with fixed numbers, in millimetres',
      [('reading of coordinates', G + 'parse_coordinates'), ('rewriting', G + 'unsplit')], ['gcoder.unsplit', 'line.raw'],
      'Words other than X Y Z E F I J and comments in parentheses are dropped by the rewriting and are not covered.'),
    P('C06', 'Programs are equal exactly when their commands are, within a micrometre',
      'Two programs compare equal, whichever comes first, if and only if they have the same commands with the same words in the same '
      'order, every coordinate within a micrometre, ignoring comments, blank lines, line numbers, spacing and case. The difference '
      'reported between two programs is empty exactly when they are equal, and a program equals itself.',
      'every pair of programs related by an edit (line dropped, added, duplicated, swapped, changed of command or words) or by '
      'arbitrary changes of coordinates',
      'the comparison is the oracle of the test suite itself, and is only exercised on equal or obviously different programs',
      [('comparison', G + 'GCode.__eq__'), ('difference', G + 'GCode.diff'), ('line comparison', G + 'Line.__eq__')],
      ['GCode.__eq__', 'GCode.__ne__', 'GCode.diff'],
      'Differences within 1e-5 mm of the tolerance are left open.'),
    P('C07', 'Layers are the maximal runs of lines at the same height',
      'The layers of a program, those without lines aside, are the maximal runs of consecutive lines at the same Z, in order, whatever '
      'sets the height (absolute or relative moves, G92, units), and each one carries its height. The number of printed layers, the '
      'lowest and highest heights and the height of the print are those of the heights where filament is pushed.',
      'every program of 5 to 6 lines with arbitrary heights, modes, offsets and retractions',
      'tests only cut regular files with growing heights',
      [('layers', G + 'GCode._preprocess')],
      ['GCode.all_layers', 'GCode.layers_count', 'GCode.zmin', 'GCode.zmax', 'GCode.height', 'GCode.estimate_duration'],
      'Two heights of a program are the same or 0.02 mm apart; no homing after the first height.'),
    P('C08', 'Bounding box and filament length are those of the extruding moves',
      'The minimum, maximum and extent along X and Y are those of the end points of the moves that push filament (of all moves when '
      'none does), and the filament length is the highest amount of filament pushed at any time, whatever the modes, offsets, units '
      'and homing.',
      'every program of 3 to 6 lines with arbitrary coordinates and filament amounts',
      'tests never read these results',
      [('bounding box', G + 'GCode._preprocess'), ('filament', G + 'GCode.filament_length')],
      ['GCode.xmin/xmax/ymin/ymax', 'GCode.width', 'GCode.depth', 'GCode.filament_length', 'line.extruding'],
      'A move with a free E moves at least 1e-6 mm of filament; one axis at a time is free.'),
    P('C09', 'Estimated durations are bounded by distance over feedrate, plus pauses',
      'The estimated duration of every layer lies between the time its moves take at the highest feedrate met so far, plus its '
      'pauses, and twice the time they take at their own feedrates, plus its pauses. The estimated duration of the program is the sum '
      'of those of its layers. A move that turns by a right angle or more takes the time it takes from rest; one that goes on at the same feedrate takes its distance over it.',
      'every program of 3 to 4 timed lines with arbitrary lengths, feedrates and pauses, in all modes, offsets and units',
      'tests never read the durations; moves after G92, G28, mode or layer changes are the delicate cases',
      [('duration', G + 'GCode.estimate_duration')],
      ['GCode.estimate_duration', 'GCode.duration', 'layer.duration'],
      'Arcs are not timed by the estimate and are excluded; feedrates of at least 60 mm/min.'),
    P('C10', 'Translation moves the head by the requested amount',
      'Executing the translated program brings the head, after every command, to the original position plus the translation on every '
      'axis that was positioned by an absolute move since power up or its last homing, and to the original position on the others. Z, filament, '
      'feedrate and the centres of arcs are those of the original program.',
      'every program of 6 to 7 commands over absolute and relative moves, arcs, modes, G92, G28, units with arbitrary coordinates',
      'tests translate one or two fixed programs without offsets, homing or mode changes in the middle',
      [('translation', T + 'GCodeXYTranslateFilter')], ['gcode_mod -x -y', 'GCodeXYTranslateFilter.filter'],
      'The first positioning mode of the program is explicit; parts moved in relative coordinates only, right after homing, stay in place.',
      ('programs', 'inputs', 'configurations')),
    P('C11', 'Translation touches nothing but X and Y words of absolute moves and G92',
      'Translation keeps every line verbatim except absolute moves and G92 lines carrying a translated axis (or a bare G92), and in '
      'these every other word keeps its value and the comment stays. A missing or null translation changes nothing.',
      'every program of 5 lines over moves, modes, comments, other commands and unknown lines; no, null, X only, Y only or full translation',
      'tests compare with an equality that ignores comments, on a few programs',
      [('translation', T + 'GCodeXYTranslateFilter')], ['GCodeXYTranslateFilter.filter'],
      'Rewritten lines have 3 decimals (5 for E).', ('programs', 'inputs', 'configurations')),
    P('C12', 'Conversion to relative extrusion keeps the filament of every command',
      'In the converted program every command pushes exactly the filament it pushes in the original one, with the same head position, '
      'feedrate and arc centre, whatever the extrusion and positioning modes, offsets, units and tool changes met. Every '
      'converted move is made in relative extrusion.',
      'every program of 5 to 6 commands with arbitrary coordinates',
      'tests convert a few fixed programs in one mode',
      [('conversion', R + 'GCodeToRelativeExtrusionFilter')], ['gcode_mod -e', 'GCodeToRelativeExtrusionFilter.filter'],
      'Rewritten E have 5 decimals, other coordinates of rewritten lines 3.'),
    P('C13', 'Conversion to relative extrusion changes E only, and is idempotent',
      'The conversion to relative extrusion keeps verbatim every line that is neither an extruding move nor a selection of the extrusion mode, keeps every '
      'other word and the comment of the moves with an E, adds nothing but selections of relative extrusion, and leaves no selection of absolute extrusion. Converting a '
      'converted program again changes nothing.',
      'every program of 5 to 6 commands including comments, other commands and unknown lines',
      'tests compare with an equality that ignores comments; idempotence is only sampled',
      [('conversion', R + 'GCodeToRelativeExtrusionFilter')], ['GCodeToRelativeExtrusionFilter.filter'],
      'Rewritten lines lose their comment (limitation of the rewriting).'),
    P('C14', 'Stretching displaces the points of walls as documented, and nothing else',
      'Every point of a closed wall (perimeters of Slic3r, walls and skin of Cura, edges and loops of Skeinforge) is displaced away from the '
      'places met at the stretch distance along the same wall on both sides, the part across a neighbour fading out up to the limit distance, by '
      'at most strength x ratio of the type of the wall x width of the extrusion, whatever is printed before, after or between walls and wherever '
      'layers change; the points of an unfinished or open wall stay within this limit. No other line changes.',
      'walls of 15 shapes at any place with any width and strength, alone or among other walls, infill, retractions and layers',
      'tests compare one file of Skeinforge with a recorded output; those of Slic3r and Cura check nothing',
      [('stretch', S + 'StretchFilter'), ('iterators', S + 'LineIteratorForward, LineIteratorBackward, CuraLineIteratorForward, '
        'CuraLineIteratorBackward'), ('Slic3r', S + 'Slic3rStretchFilter'), ('Cura', S + 'CuraStretchFilter'), ('Skeinforge',
        S + 'SkeinforgeStretchFilter')], ['gcode_stretch', 'stretch_plugin'], 'X and Y are on every line of a wall; shapes are those of a list.',
      ('inputs', 'programs', 'configurations')),
    P('C15', 'Stretching keeps heights, feedrates, modes, order and the other moves',
      'Executing the stretched program gives, line by line, the same commands, heights, feedrates in force, units, modes and tool as the '
      'original; filament is the same on every line out of walls, and shrinks by at most the displacement (in mm, as a fraction) on a line of a wall.',
      'walls with any of 15 other lines before, between their points or after, any numbers, mm and inches',
      'tests never execute the stretched programs', [('stretch', S + 'StretchFilter')], ['gcode_stretch', 'stretch_plugin'],
      'Relative extrusion (made first by the command line and the plugin).'),
    P('C16', 'Stretching any sequence of lines ends, keeps every line and moves walls only',
      'For any order of wall points, travels, retractions, hops, layer changes, section marks and comments - unfinished walls, walls of a '
      'single point, marks without walls - stretching ends without an error, keeps the number and order of lines, and moves no other lines than '
      'those the slicer marked as parts of walls, within the limit of their type.',
      'every sequence of 3 (quick) or 4 (thorough) lines of a vocabulary in 6 contexts for each slicer',
      'tests stretch well-formed programs only',
      [('stretch', S + 'StretchFilter'), ('iterators', S + 'LineIteratorForwardLegacy')], ['gcode_stretch', 'stretch_plugin'], '',
      ('inputs', 'programs')),
    P('C17', 'An arc follows the segments it replaces',
      'Every arc made by the optimisation starts and ends where the segments it replaces do, turns the way they turn by at most a turn, has '
      'its centre at the centre of the circle they are on, and none of their points is further than 0.035 mm from it; it replaces at '
      'least 8 segments, and every other move still ends where it did. Points off a common circle, uneven segments or segments going back are never made arcs.',
      'paths of 6 to 40 segments at any place and of any size (radius 2 to 150 mm), in absolute, relative, shifted coordinates, and inches',
      'tests run two fixed programs with arcs in absolute coordinates',
      [('arc detection', A + 'GCodeArcOptimizerFilter'), ('geometry', 'gcodeutils/stretch/vector3.py:Vector3')], ['GCodeArcOptimizerFilter.filter'],
      'The shape of the path (angles, order, bumps) is taken from a list; place and size are symbolic.'),
    P('C18', 'Arcs push the filament of the segments they replace',
      'An arc pushes the filament of the segments it replaces in proportion of the arc and chord lengths, in absolute, relative, shifted '
      'extrusion and in inches, and segments of different flows are never merged. Every other move pushes what it pushed (in absolute '
      'extrusion, the move after an arc may be short of the additional filament of the arc, at most 1 %).',
      'one or two arcs of 8 to 40 segments of any place, size, flow and starting E, followed by moves, retractions, resets or mode changes',
      'tests check the E of two fixed arcs, in one mode',
      [('extrusion of arcs', A + 'GCodeArcOptimizerFilter')], ['GCodeArcOptimizerFilter.filter'],
      'The angles are taken from a list; place, size, flow and starting E are symbolic.'),
    P('C19', 'Arc optimisation touches nothing but plain runs of segments',
      'Arc optimisation keeps verbatim and in order every line that is not a plain linear move, and merges only runs of moves with the same '
      'feedrate, at the same height, all with or all without filament. After every kept line the modes, tool, unit, feedrate, height and '
      'position are those of the original program.',
      '19 segments on a circle of any place, size and flow, with one or two other lines of any kind before, among or after them',
      'tests run two fixed programs',
      [('queue of segments', A + 'GCodeArcOptimizerFilter')], ['GCodeArcOptimizerFilter.filter'],
      'Comments at the end of a merged segment are lost with it.'),
    P('C20', 'Temperature calibration sets the temperature profile requested',
      'On every layer between the lowest one above the minimum height and the highest printed one, the temperature in force is the one '
      'of the requested gradient (linear with the height, or equal steps), from the start to the end temperature, never outside of them '
      'nor of the safe range (150 to 250 degrees). It is set at most once per layer, only when it changes, and never outside of these '
      'heights; a program without layers above the minimum height is refused.',
      'programs of 2 to 5 layers of any heights, any temperatures, any minimum height, 1 to 10 steps or continuous',
      'tests compare three temperatures on one program',
      [('continuous', K + 'GCodeContinuousTempGradient'), ('steps', K + 'GCodeStepTempGradient'), ('writing', K + 'GCodeTempGradient.write')],
      ['gcode_tempcal', 'GCodeTempGradient.write'], 'Layers at least 0.05 mm apart.', ('inputs', 'configurations', 'programs')),
    P('C21', 'Temperature calibration keeps the program and adds temperatures only',
      'The output of the temperature calibration has every non-blank line of the program, verbatim and in order; the only lines added are '
      'temperature settings placed before the first line of a layer. This holds for the command line, the API and the Cura plugin.',
      'programs of 2 or 3 layers at any heights with any line of a list inserted anywhere',
      'tests read one fixed program and compare with an equality that ignores comments',
      [('writing', K + 'GCodeTempGradient.write'), ('command line', K + 'main'),
       ('plugin', 'cura_plugins/tempcal_plugin.py:')], ['gcode_tempcal', 'tempcal_plugin'], '', ('inputs', 'configurations', 'programs')),
    P('C22', 'A pause comes once, before the first line of the requested layer',
      'Asking for a pause at a printed layer inserts exactly one pause command per requested layer, right before the first line of this layer the first time it is reached, '
      'and changes nothing else; layers without extrusion do not count, and a layer number that does not exist inserts nothing.',
      'programs of up to 6 pieces (printed layers of any heights in any order, travels, hops, layers entered again), every layer number',
      'tests pause one regular program',
      [('iterator', V + 'iterator.py:GCodeIterator'), ('pause', V + 'pause_at_layer.py:PauseAtLayer'),
       ('command line', 'gcodeutils/gcode_mod.py:main')], ['gcode_mod -p', 'PauseAtLayer'], 'Different heights are 0.02 mm apart.',
      ('programs', 'inputs', 'configurations')),
    P('C23', 'Visiting a program shows every layer and line once, in order',
      'A visit of a program calls the visitor for every layer (start and end) and every line exactly once, in the order of the program, '
      'with the program, the index of the layer, whether it is printed, its number among the printed layers and the number of the line.',
      'programs of up to 6 pieces (printed layers of any heights in any order, identical layers, travels, hops)',
      'tests visit one regular program',
      [('iterator', V + 'iterator.py:GCodeIterator')], ['GCodeIterator.accept', 'GCodeVisitor'], 'Different heights are 0.02 mm apart.'),
    P('C24', 'Inserting in or rewriting a layer keeps the program consistent',
      'After any history of insertions of commands at the start of a layer, rewriting of layers and additions at the end, the layer '
      'contains the given commands (non-blank, stripped) followed by its former lines, or only the given ones; every other layer is '
      'unchanged, and the flat list of lines and the index of every line agree with the layers.',
      'programs of up to 5 pieces and histories of 2 or 3 operations on any layer with lines',
      'tests insert one command in one layer and never look at the index',
      [('insertion', G + 'GCode.prepend_to_layer'), ('rewriting', G + 'GCode.rewrite_layer')],
      ['GCode.prepend_to_layer', 'GCode.rewrite_layer', 'GCode.append'], 'Layers without lines are excluded.', ('histories', 'programs')),
    P('C25', 'Vectors form a vector space and operators never alter their operands',
      'Vectors satisfy the laws of a vector space with dot, cross and scalar products, norms, normalisation and reflexion; equality, hash, '
      'truth and copies agree with the components. Operators return new values and never alter their operands; in-place operators '
      'alter their left operand only.',
      'all vectors and scalars', 'tests do not cover the vector class',
      [('vectors', 'gcodeutils/stretch/vector3.py:Vector3')], ['Vector3'],
      'Divisors are at least 1e-3 away from 0; floats as exact reals.', ('inputs',)),
    P('C26', 'Options of gcode_mod together do what they do one after another',
      'Running gcode_mod with any combination of a translation in X, in Y, the conversion to relative extrusion and a pause gives a program '
      'whose commands have the same effects, line by line, as running it once per option, in any order, reading the program again each time.',
      'every combination of 2 options or more, any amounts, programs of 2 or 3 layers with free heights, coordinates or flow, in 4 extrusion and positioning modes',
      'no test runs the command line or combines two filters',
      [('command line', 'gcodeutils/gcode_mod.py:main'), ('translation', T + 'GCodeXYTranslateFilter'),
       ('conversion', R + 'GCodeToRelativeExtrusionFilter'), ('pause', V + 'pause_at_layer.py:PauseAtLayer')],
      ['gcode_mod -x -y -e -p'], 'One kind of word of the program is free in each case (X, Y, E or Z), the translations always are.',
      ('programs', 'inputs', 'configurations')),
    P('C27', 'Commands read and write the files requested and nothing else',
      'gcode_mod, gcode_optimize_arcs, gcode_stretch and gcode_tempcal read the file given or else the standard input, to the last line, '
      'and write the program the filters give to the file given (replacing its content), or else to the standard output, or with -i in place of the '
      'file read; the other files are left alone and no message goes into the output, whatever the verbosity.',
      'every command without or with options, every way to give the files, any verbosity, with or without a final end of line, programs with free heights and flow',
      'no test runs the command lines',
      [('gcode_mod', 'gcodeutils/gcode_mod.py:main'), ('arcs', 'gcodeutils/gcode_optimize_arcs.py:main'),
       ('stretch', 'gcodeutils/gcode_stretch.py:main'), ('tempcal', K + 'main'), ('write', G + 'GCode.write')],
      ['standard output', 'output file', 'file in place'], 'The program expected is the one given by the filters through their own interface (other properties tell '
      'what it has to be).', ('configurations', 'inputs')),
    P('C28', 'Options of gcode_stretch and of its Cura plugin have their documented effect',
      'gcode_stretch recognises Cura and Slic3r programs, and moves the points of every wall of a program in absolute or relative extrusion by strength x ratio of the '
      'type of wall x width in the direction taken at the given reach and limited beyond the given limit, each option having its documented default; '
      'the program comes out in relative extrusion, and everything else (filament of other lines, feedrates, heights, order) is kept. '
      'The Cura plugin does the same in place with its strength.',
      'walls of up to 24 sides of any place, flow and width, any strength and ratios, with any subset of the options',
      'tests call the filter itself, on programs already in relative extrusion, with default settings',
      [('command line', 'gcodeutils/gcode_stretch.py:main'), ('settings', S + 'StretchRepository'), ('stretch', S + 'StretchFilter'),
       ('plugin', 'cura_plugins/stretch_plugin.py:')],
      ['gcode_stretch', 'stretch_plugin'], 'Shapes of walls as in C14.', ('inputs', 'configurations', 'programs')),
    P('C29', 'A program that fails is left as it was',
      'When a command or a Cura plugin fails on a program (malformed words or settings in its comments, a program too low for a temperature gradient), the file '
      'read still holds the original program, also when it was to be replaced in place; when it succeeds no line of the program is lost, so no program is ever emptied.',
      'programs of up to 3 layers at any heights, any minimum height of gradients, one line possibly malformed anywhere',
      'tests neither run the commands nor the plugins, and no test has a program refused',
      [('arcs', 'gcodeutils/gcode_optimize_arcs.py:main'), ('plugin', 'cura_plugins/tempcal_plugin.py:'), ('plugin', 'cura_plugins/stretch_plugin.py:'),
       ('refusal', K + 'GCodeTempGradient._parse_gcode')],
      ['gcode_optimize_arcs -i', 'tempcal_plugin', 'stretch_plugin', 'gcode_mod', 'gcode_stretch', 'gcode_tempcal'],
      'Failures of the system (full disk) are outside.', ('inputs', 'configurations')),
    P('C30', 'The summary of a program gives its true figures',
      'The gcoder command prints the extent in X and Y of the moves that push filament (of all moves when none does), the height of the print, '
      'the filament used, the number of printed layers and the estimated duration of the program in the file given.',
      'programs of up to 4 layers with any heights, points, amounts or feedrates, in 6 modes of positioning, extrusion and unit',
      'no test runs the command',
      [('summary', G + 'main'), ('dimensions', G + 'GCode._preprocess')],
      ['python -m gcodeutils.gcoder'], 'One kind of figure is free in each case.', ('programs', 'inputs')),
    P('C31', 'Light, deferred and monitored reading give the same program',
      'A light program, a program prepared later, from any iterable, or read with callbacks has the same lines, layers, indices, modes, position, dimensions and '
      'durations as one read at once, and is written identically. The line callback gets every line once, in order, with its state; the layer callback gets each layer but the last once, in order, when '
      'it is complete.',
      'programs of up to 5 pieces at any heights, and any programs of free lines among 19 kinds, 7 ways to read them',
      'tests only read programs at once',
      [('reading', G + 'GCode.prepare'), ('callbacks', G + 'GCode._preprocess'), ('light', G + 'LightGCode')],
      ['GCode.prepare', 'LightGCode', 'layer_callback', 'line_callback'], 'Light programs are not filtered or compared (their lines have no words).', ('programs', 'histories')),
    P('C32', 'No tool fails, hangs or loses a command on a well formed program',
      'gcode_mod with any option, gcode_optimize_arcs, gcode_stretch and gcode_tempcal finish without error on any well formed program (but refuse '
      'programs too low for a gradient), and every command of the program other than moves and modes of extrusion is in the result, in order.',
      'sequences of lines of 52 kinds with free numbers in 4 contexts, for 8 uses of the tools',
      'tests use a few real programs only',
      [('reading', G + 'GCode._preprocess'), ('arcs', A + 'GCodeArcOptimizerFilter'), ('stretch', S + 'StretchFilter'), ('translation', T + 'GCodeXYTranslateFilter'),
       ('conversion', R + 'GCodeToRelativeExtrusionFilter'), ('temperature', K + 'GCodeTempGradient')],
      ['gcode_mod', 'gcode_optimize_arcs', 'gcode_stretch', 'gcode_tempcal'], 'A bare T and malformed numbers are outside (see C29).', ('programs', 'inputs', 'configurations')),
    P('C33', "What a tool makes of a program does not depend on the programs handled before",
      'gcode_mod, gcode_optimize_arcs, gcode_stretch, gcode_tempcal and the Cura plugins make the same result of a program, byte for byte, whatever programs '
      'were handled before in the same process: ones ending in relative mode, in inches, in the middle of a wall or an arc, or refused ones.',
      'a program of 6 kinds with free numbers handled first and after one of 8 programs, for 12 uses of the tools before and after',
      'every test handles one program',
      [('state of the visit', 'gcodeutils/visit/iterator.py:GCodeIterator'), ('arcs', A + 'GCodeArcOptimizerFilter'), ('stretch', S + 'StretchFilter'),
       ('conversion', R + 'GCodeToRelativeExtrusionFilter'), ('temperature', K + 'GCodeTempGradient')],
      ['gcode_mod', 'gcode_optimize_arcs', 'gcode_stretch', 'gcode_tempcal', 'cura_plugins'], 'One filter object used for two programs is outside (see DESIGN.md).', ('histories', 'programs', 'configurations')),
    P('C34', 'Lines written by the tools are well formed',
      'Every line that gcode_mod, gcode_optimize_arcs, gcode_stretch or gcode_tempcal adds or rewrites is a command followed by words, each a letter and a plain decimal '
      'number (no exponent, however small or large the value), no letter twice, then its comment if any.',
      '7 programs with one kind of word free, around zero or not, free options, for 9 uses of the tools',
      'tests use ordinary numbers; a number below 0.0001 is spelled differently by default',
      [('rewriting', G + 'unsplit'), ('arcs', A + 'GCodeArcOptimizerFilter.to_gcode'), ('translation', T + 'GCodeXYTranslateFilter'),
       ('conversion', R + 'GCodeToRelativeExtrusionFilter'), ('temperature', K + 'GCodeTempGradient.generate_temperature_gcode')],
      ['gcode_mod', 'gcode_optimize_arcs', 'gcode_stretch', 'gcode_tempcal'], 'Lines kept from the program are as they were.', ('inputs', 'programs', 'configurations')),
    P('C35', 'Tools can be chained in any order',
      'Translation, conversion to relative extrusion, pauses, arcs, stretching and temperatures applied one after the other give, in either order, the same commands with '
      'the same positions, filament, feedrates, centres and comments. Converting or optimising twice changes nothing more, and the opposite translation gives back the program.',
      '17 pairs of tools in both orders and 6 pairs that give back the same, on 8 programs with one kind of word free',
      'tests run one tool at a time',
      [('rewriting', G + 'unsplit'), ('arcs', A + 'GCodeArcOptimizerFilter'), ('translation', T + 'GCodeXYTranslateFilter'), ('stretch', S + 'StretchFilter'),
       ('conversion', R + 'GCodeToRelativeExtrusionFilter'), ('temperature', K + 'GCodeTempGradient'), ('pause', 'gcodeutils/visit/pause_at_layer.py:PauseAtLayer')],
      ['gcode_mod', 'gcode_optimize_arcs', 'gcode_stretch', 'gcode_tempcal'], 'Arcs and conversion are not compared (arcs are corrected in absolute extrusion), nor moves of less than 0.001 mm of filament.',
      ('programs', 'inputs', 'configurations')),
]
NOT_APPLICABLE = {}
