"""Table of the checks: what each one compiles, runs and reports."""
TECHNIQUE = 'property-based testing: generated cases and histories against a reference model, with shrinking'
NOTE = ('No counterexample in the generated cases (counts in the evidence file); sanitizers and assertions on. Assumes '
        'the stand-in dynamic-graph/pinocchio headers evaluate signals as the real libraries do.')
ASSUME = ['dynamic-graph and pinocchio are not installed here: the sources of sot-core are compiled unmodified on the '
          'stand-in headers of /verif/shim, which re-implement their documented semantics',
          'floating point comparisons use the stated relative tolerances']
NOT_APPLICABLE = []
EXC = ['src/exception/exception-%s.cpp' % k for k in ('abstract', 'dynamic', 'factory', 'feature', 'signal', 'task', 'tools')]
DBG = ['src/debug/debug.cpp']
CHECKS = {}


def C(cid, rule, *parts, **kw):
    CHECKS[cid] = dict(rule=rule, parts=list(parts), **kw)


def cpp(harness, srcs=(), **kw):
    return dict(kind='cpp', harness=harness, srcs=list(srcs), **kw)


def py(module, **kw):
    return dict(kind='py', module=module, **kw)


C('C01', 'a case is a denominator (length 1-5), a numerator (length 1-6), a timestep, a signal width and a history of '
  'samples; non-trivial when the history is longer than the numerator and not constant',
  cpp('c01.cpp', ['src/filters/causal-filter.cpp'] + DBG + EXC))
C('C02', 'a case is a history of samples and coefficient switches over generated filters; non-trivial when a switch is '
  'followed by at least two samples and a sample precedes it',
  cpp('c02.cpp', ['src/filters/causal-filter.cpp'] + DBG + EXC))
C('C03', 'a case is a history of start/pause/stop/reset/turn_on/turn_off/set_mode/report over three names with generated '
  'clock advances; non-trivial with two completed laps or a pause',
  cpp('c03.cpp', ['src/utils/stop-watch.cpp']))
C('C04', 'a case is an exception family, a code, a message and a format with arguments of generated length; non-trivial '
  'when both the message and the formatted part are non-empty',
  cpp('c04.cpp', DBG + EXC))
C('C05', 'a case is a history of trace calls, level changes and file openings/closings (including an unwritable path and a '
  'full device); non-trivial when some messages are shown and some are not',
  cpp('c05.cpp', DBG))
C('C06', 'a case is an interleaving of appends (cut at any byte), polls and deliveries; non-trivial when at least two '
  'lines are delivered', cpp('c06.cpp', ['src/debug/contiifstream.cpp'] + DBG))
C('C07', 'a case is one to three flag vectors (any tail, 0-150 explicit bits) and a history of operations; non-trivial when '
  'operands have different lengths', cpp('c07.cpp', ['src/sot/flags.cpp'] + DBG))
C('C08', 'a case is a history of bound edits, or values and vectors printed then parsed; non-trivial when the mode changes '
  'twice, or a half-open bound is printed', cpp('c08.cpp', ['src/task/multi-bound.cpp'] + DBG + EXC))
OPS = ['src/matrix/operator.cpp'] + DBG + EXC
C('C09', 'a case is a pose in one of ten representations and a chain of up to eight conversion entities (rotations near 0, near '
  'pi and gimbal lock are favoured), or a pair of motions; non-trivial when the rotation is not the identity',
  cpp('c09.cpp', OPS))
C('C10', 'a case is a matrix built from chosen singular values (null, repeated, below the threshold) and random orthogonal factors, '
  'any shape up to 9x9, and a threshold or damping; non-trivial when rank deficient or not square, and not null',
  cpp('c10.cpp', ['src/matrix/matrix-svd.cpp'] + DBG))
C('C11', 'a case is an operator entity, its settings, and one to three rounds of operands of changing number and size; non-trivial '
  'with three operands or more, non-square matrices, or a history longer than the kernel', cpp('c11.cpp', OPS))
CONST = ['src/matrix/%s-constant.cpp' % k for k in ('vector', 'matrix', 'double')]
C('C12', 'a case is a selector, stacker, mixer or constant with a history of selections and differently sized operands, or a variadic '
  'operator with a history of input edits including name clashes; non-trivial with two segments, a non-square block or four edits',
  cpp('c12.cpp', OPS + CONST))
C('C14', 'a case is one derivator, FIR filter or moving average with a history of samples, settings and repeated evaluations; '
  'non-trivial when the history is longer than the memory and the settings are not the defaults',
  cpp('c14.cpp', ['src/matrix/derivator.cpp', 'src/matrix/fir-filter.cpp', 'src/tools/exp-moving-avg.cpp'] + DBG + EXC))
C('C15', 'a case is an ODE (order 0-3 on both sides, scalar, matrix or vector coefficients), a sampling period and a history of '
  'samples, restarts and refused initialisations; non-trivial with three steps and derivatives on both sides',
  cpp('c15.cpp', ['src/matrix/integrator-euler.cpp', 'src/matrix/integrator-abstract.cpp'] + DBG + EXC))
C('C16', 'a case is a history of samples, filter switches and re-initialisations read through the three outputs in any order; '
  'non-trivial with more than three samples',
  cpp('c16.cpp', ['src/filters/causal-filter.cpp', 'src/filters/filter-differentiator.cpp', 'src/utils/stop-watch.cpp'] + DBG + EXC, libs=['-ldl']))
C('C17', 'a case is a history of gyroscope and accelerometer samples (null, tiny, aligned) with parameter changes, or a rest '
  'position to converge to; non-trivial with feedback and more than two steps',
  cpp('c17.cpp', ['src/filters/madgwickahrs.cpp', 'src/utils/stop-watch.cpp'] + DBG + EXC))
C('C18', 'a case is a state/measurement size, an initial estimate and a history of measurements with constant or changing models and '
  'restarts; non-trivial with two states and three steps', cpp('c18.cpp', ['src/tools/kalman.cpp'] + DBG + EXC))
C('C19', 'a case is up to four rounds of gains, positions and velocities (some inputs changed, sizes changing) read in any order; '
  'non-trivial with two joints and two rounds',
  cpp('c19.cpp', DBG + ['src/control/control-pd.cpp', 'src/control/control-gr.cpp'] + EXC))
C('C20', 'a case is a history of wrenches, poses, gains, saturations, resets and (refused) initialisations; non-trivial with '
  'three steps', cpp('c20.cpp', ['src/control/admittance-control-op-point.cpp', 'src/utils/stop-watch.cpp'] + DBG + EXC))
C('C21', 'a case is up to four parameterisations by any route and error vectors of chosen norm; non-trivial when the gain is not constant',
  cpp('c21.cpp', ['src/task/gain-adaptive.cpp', 'src/task/gain-hyperbolic.cpp'] + DBG + EXC))
FEAT = ['src/feature/feature-abstract.cpp', 'src/factory/pool.cpp', 'src/sot/flags.cpp', 'src/task/task-abstract.cpp', 'src/task/multi-bound.cpp']
C('C26', 'a case is a feature with a history of input, size, selection and reference changes read in any order; non-trivial with a '
  'partial selection and a reference after two rounds (or several rounds for the others)',
  cpp('c26.cpp', ['src/feature/feature-%s.cpp' % k for k in ('generic', '1d', 'vector3', 'posture', 'task')] + FEAT + DBG + EXC))
C('C22', 'a case is a task, up to five features with references and selections, and a history of additions, clearings, input, size and '
  'gain changes read in any order; non-trivial with two features in the list after the first round',
  cpp('c22.cpp', ['src/feature/feature-generic.cpp', 'src/task/task.cpp'] + FEAT + DBG + EXC))
C('C23', 'a case is a history of errors, gains, external derivatives, bounds or activation times for one of the three tasks; '
  'non-trivial after the first rounds with an active specific term',
  cpp('c23.cpp', ['src/feature/feature-generic.cpp', 'src/task/task.cpp', 'src/task/task-pd.cpp', 'src/task/task-conti.cpp',
                  'src/task/task-unilateral.cpp'] + FEAT + DBG + EXC))
SOT = ['src/feature/feature-generic.cpp', 'src/feature/feature-posture.cpp', 'src/task/task.cpp', 'src/sot/memory-task-sot.cpp'] + FEAT + DBG + ['src/sot/sot.cpp'] + EXC
C('C24', 'a case is a stack, up to four tasks and a history of edits, input changes, destructions of tasks outside the stack and evaluations; '
  'non-trivial when two tasks are evaluated together after three edits', cpp('c24.cpp', SOT))
C('C25', 'a case is a stack of up to five tasks (conflicting, rank deficient, empty, posture), with thresholds, base controls, projectors, '
  'control selections and increment bounds, evaluated over several rounds; non-trivial when two levels are solved', cpp('c25.cpp', SOT))
C('C27', 'a case is a feature with two candidate references and a history of pose, velocity, Jacobian, selection, frame and reference '
  'changes (rotations near 0 and pi favoured); non-trivial with a reference at another orientation after the first round',
  cpp('c27.cpp', ['src/feature/feature-point6d.cpp'] + FEAT + DBG + EXC))
C('C28', 'a case is a pose feature of one representation and a history of placements, joint Jacobians (one or two joints), requested poses '
  'and velocities and selections; non-trivial with two moving joints at another orientation after the first round',
  cpp('c28.cpp', ['src/feature/feature-pose.cpp'] + FEAT + DBG + EXC))
C('C29', 'a case is one of five entities with a history of geometric inputs, references and selections; non-trivial after the first round, '
  'with some component selected and a reference where there is one',
  cpp('c29.cpp', ['src/feature/feature-%s.cpp' % k for k in ('visual-point', 'joint-limits', 'line-distance', 'point6d', 'point6d-relative')] +
      ['src/feature/visual-point-projecter.cpp'] + FEAT + DBG + EXC))
C('C30', 'a case is a history of poses, Jacobians, transformations and conventions read in any order; non-trivial with a transformation '
  'other than the identity after the first round', cpp('c30.cpp', ['src/math/op-point-modifier.cpp'] + DBG + EXC))
C('C31', 'a case is a robot size, bounds and a history of periods (control of full, joint or any size, NaN included), state, velocity, '
  'root, bounds, mode and sanity changes, with periodic calls that may throw; non-trivial with two periods and another event',
  cpp('c31.cpp', ['src/tools/device.cpp', 'src/tools/periodic-call.cpp'] + DBG + EXC))
C('C32', 'a case is one limiter with a history of inputs (positions near, at or out of the limits), sizes and settings; non-trivial when '
  'some commands are limited and others are not (any later round for the workspace clamp)',
  cpp('c32.cpp', ['src/tools/%s.cpp' % k for k in ('joint-limitator', 'gripper-control', 'neck-limitation', 'clamp-workspace')] +
      ['src/sot/flags.cpp'] + DBG + EXC))
C('C33', 'a case is one entity with a history of conditions, requests, selections (out of range included), input counts, or evaluations '
  'under a controlled clock; non-trivial when the state machine takes at least two different transitions',
  cpp('c33.cpp', ['src/tools/%s.cpp' % k for k in ('event', 'latch', 'switch', 'binary-int-to-uint', 'timer', 'time-stamp')] + DBG + EXC))
C('C34', 'a case is one generator with a history of evaluation times, inputs and parameter changes; non-trivial when the CoM is held twice, '
  'two periodic values or two points strictly inside a reach are read, or three ascent steps are made',
  cpp('c34.cpp', ['src/tools/%s.cpp' % k for k in ('com-freezer', 'motion-period', 'smooth-reach', 'gradient-ascent')] + DBG + EXC))
C('C35', 'a case is one to three posting threads and a reading one whose interleaving (switches at each mutex operation, clock reading and '
  'half copy) is generated, or a history of posts and reads of the three signals; non-trivial when a post overlaps a read with three '
  'switches, or with two posts and two reads',
  cpp('c35.cpp', ['src/tools/mailbox-vector.cpp'] + DBG + EXC, libs=['-ldl', '-lboost_thread', '-lboost_system']))
C('C36', 'a case is a history of registrations (under any name and period, or refused), removals and runs of a periodic caller, or of '
  'scheduled events, removals, starts, stops and resets of a sequencer; non-trivial when a signal is skipped at least once in four runs, '
  'or two events fire',
  cpp('c36.cpp', ['src/tools/periodic-call.cpp', 'src/tools/periodic-call-entity.cpp', 'src/tools/sequencer.cpp'] + SOT))
C('C37', 'a case is a history of files loaded (any number formats, blank and text lines, lines around 1024 characters and longer), rewinds, '
  'clears, selections, matrix sizes and readings of both outputs; non-trivial when two rows are passed and the last one is held',
  cpp('c37.cpp', ['src/traces/reader.cpp', 'src/sot/flags.cpp'] + DBG + EXC))
C('C38', 'a case is one to three textual trajectories parsed into the same object (any names, widths, number formats, empty lists), or a '
  'history of trajectories received (new, empty, sent again) and evaluations of the five outputs; non-trivial with two names and two '
  'points, or when a point is held and a queued trajectory starts',
  cpp('c38.cpp', DBG + ['src/tools/trajectory.cpp', 'src/tools/joint-trajectory-entity.cpp'] + EXC, libs=['-lboost_regex']))
C('C39', 'a case is a permutation with configurations (gimbal lock and half turns favoured) and velocities, or a history of registrations of '
  'joints, forces, limits, parameters and robots, or a generated robot description; non-trivial with a real permutation of three '
  'joints, a name given another id, a robot created twice, or mimic joints among others',
  cpp('c39.cpp', ['src/tools/robot-utils.cpp'] + DBG + EXC))
PS = ['src/tools/robot-utils.cpp', 'src/tools/parameter-server.cpp'] + DBG + EXC
C('C40', 'a case is a history of initialisations (refused ones included), settings and queries over three servers and two robots, or of '
  'initialisations on the only robot of a fresh process; non-trivial when a command comes too early and both robots are set, or with two '
  'initialisations', cpp('c40.cpp', PS), cpp('c40b.cpp', PS))
C('C41', 'a case is a history of library choices (sound, without factory, not a library, absent), initialisations, starts, stops, '
  'iterations with injected exceptions, clean-ups, device loadings and interpreter commands, or a command line; non-trivial when the graph '
  'ran and a library was loaded again or cleaned up, or both options are given',
  cpp('c41.cpp', ['src/tools/sot-loader.cpp'] + DBG + EXC, libs=['-lboost_program_options', '-ldl']))
C('C42', 'a case is a history of creations, destructions and renamings of features and tasks over five names with look-ups, or a set of tasks, '
  'features, references and stacks written as a graph under any file name; non-trivial when a name is refused and another used again, or '
  'with two tasks', cpp('c42.cpp', SOT + ['src/task/task-unilateral.cpp', 'src/task/task-pd.cpp', 'src/feature/feature-vector3.cpp',
  'src/feature/feature-visual-point.cpp']))
C('C13', 'a case is an entity of one of the classes listed in the labels, set up twice, with a history of input changes (plugged sources and constants, sizes '
  'changing) and evaluations of the outputs in any order; non-trivial when an output is read after three changes',
  cpp('c13.cpp', DBG + ['src/matrix/operator.cpp', 'src/sot/flags.cpp', 'src/factory/pool.cpp', 'src/task/task-abstract.cpp', 'src/task/multi-bound.cpp'] +
      ['src/feature/feature-%s.cpp' % k for k in ('abstract', 'generic', '1d', 'vector3', 'posture', 'task', 'point6d', 'point6d-relative', 'pose',
       'visual-point', 'joint-limits', 'line-distance')] + ['src/feature/visual-point-projecter.cpp'] +
      ['src/task/task.cpp', 'src/task/task-pd.cpp', 'src/task/task-unilateral.cpp', 'src/task/gain-adaptive.cpp', 'src/task/gain-hyperbolic.cpp'] +
      ['src/control/control-pd.cpp', 'src/control/control-gr.cpp', 'src/math/op-point-modifier.cpp', 'src/matrix/vector-to-rotation.cpp'] + CONST +
      ['src/tools/%s.cpp' % k for k in ('joint-limitator', 'gripper-control', 'neck-limitation', 'clamp-workspace', 'switch', 'binary-int-to-uint')] +
      ['src/sot/memory-task-sot.cpp', 'src/sot/sot.cpp'] + EXC))
PLUGINS = DBG + EXC + ['src/%s.cpp' % k for k in (
    'control/admittance-control-op-point control/control-gr control/control-pd debug/contiifstream factory/pool feature/feature-1d feature/feature-abstract '
    'feature/feature-generic feature/feature-joint-limits feature/feature-line-distance feature/feature-point6d-relative feature/feature-point6d '
    'feature/feature-pose feature/feature-posture feature/feature-task feature/feature-vector3 feature/feature-visual-point feature/visual-point-projecter '
    'filters/causal-filter filters/filter-differentiator filters/madgwickahrs math/op-point-modifier matrix/derivator matrix/double-constant '
    'matrix/fir-filter matrix/integrator-abstract matrix/matrix-constant matrix/matrix-svd matrix/operator matrix/vector-constant '
    'matrix/vector-to-rotation signal/signal-cast sot/flags sot/memory-task-sot sot/sot task/gain-adaptive task/gain-hyperbolic task/multi-bound '
    'task/task-abstract task/task-conti task/task-pd task/task-unilateral task/task tools/binary-int-to-uint tools/clamp-workspace tools/com-freezer '
    'tools/device tools/event tools/exp-moving-avg tools/gradient-ascent tools/gripper-control tools/joint-limitator tools/joint-trajectory-entity '
    'tools/kalman tools/latch tools/mailbox-vector tools/motion-period tools/neck-limitation tools/parameter-server tools/periodic-call-entity '
    'tools/periodic-call tools/robot-simu tools/robot-utils tools/sequencer tools/smooth-reach tools/switch tools/time-stamp tools/timer '
    'tools/trajectory traces/reader utils/stop-watch').split()]
PLIBS = ['-ldl', '-lboost_thread', '-lboost_system', '-lboost_regex']
PLUGB = DBG + EXC + ['src/matrix/integrator-euler.cpp', 'src/matrix/integrator-abstract.cpp', 'src/sot/flags.cpp', 'src/task/multi-bound.cpp',
                     'src/factory/pool.cpp', 'src/feature/feature-abstract.cpp', 'src/task/task-abstract.cpp']
C('C48', 'a case is an entity of one of all the classes (labels) with a history of printings, commands with any well-typed arguments and evaluations '
  'of any signal while no input is set, or with some of its inputs set and changed; non-trivial when two commands or outputs answer, or with a '
  'printing and two values read', cpp('c48.cpp', PLUGINS, libs=PLIBS), cpp('c48b.cpp', PLUGB))
C('C49', 'a case is a history of inputs, commands and evaluations of one or a few entities of any class (labels), played alone and then in the middle of '
  'another history of other entities, usually of the same class, made and destroyed at any moment; non-trivial when two outputs answer and three steps '
  'of the other history are played between', cpp('c49.cpp', PLUGINS, libs=PLIBS), cpp('c49b.cpp', PLUGB))
C('C46', 'a case is a byte string for one text reader: noise, words of its language and odd words in any order, a well-formed text cut '
  'anywhere or edited (bytes, ranges, words, long repetitions), or left as it is; non-trivial when it is edited and longer than a few bytes',
  cpp('c46.cpp', DBG + ['src/sot/flags.cpp', 'src/task/multi-bound.cpp', 'src/tools/trajectory.cpp', 'src/tools/joint-trajectory-entity.cpp',
      'src/traces/reader.cpp', 'src/debug/contiifstream.cpp', 'src/tools/robot-utils.cpp'] + EXC, libs=['-lboost_regex']))
PYTECH = 'property-based testing (Hypothesis): generated cases and histories against a reference model, with shrinking'
PYNOTE = ('No counterexample in the generated cases (counts in the evidence file). The compiled extension cannot be built here: the python '
          'sources run on stand-ins of its classes which record and evaluate what they are given.')
C('C43', 'a case is an axis and an angle, three angles (pitch near a quarter turn is favoured), a pose, a matrix, a vector with the random '
  'numbers to draw, or a unit quaternion; non-trivial when no angle or component vanishes', py('c43.py'), technique=PYTECH, note=PYNOTE)
C('C44', 'a case is a history of registrations of every form (functions which stop themselves or schedule others included), stops, pings, runs, '
  'fast-forwards and printings of a calendar, a recording at some frequency with the time to restore, or a history of orders given to a '
  'looping thread which is released point by point; non-trivial with two events and a stop, three samples, or two orders',
  py('c44.py'), technique=PYTECH, note=PYNOTE)
C('C45', 'a case is a position in one of nine forms, a 6D, relative or visual task over new or existing operational points with a history of '
  'modifications, references and goals, a centre of mass task, one or two posture tasks with postures in seven forms and limbs, or a '
  'feature with inputs of every form; non-trivial with two changes of the modifier, two limbs, or signals and arrays together',
  py('c45.py'), technique=PYTECH, note=PYNOTE)
C('C47', 'a case is one to three robots of a class (state as a tuple, a list or an array) with a history of steps, settings, refreshes, displays, '
  'installations of the viewer and losses of it, a list of marks, or a history of logged updates; non-trivial with three shown steps, two '
  'centres of mass, or two elements', py('c47.py'), technique=PYTECH, note=PYNOTE)
BIND = [('src/python-module.cc', 'wrap_core'), ('src/matrix/operator-python-module-py.cc', 'wrap_operator'),
        ('src/matrix/integrator-euler-python-module-py.cc', 'wrap_ie'), ('src/tools/switch-python-module-py.cc', 'wrap_switch'),
        ('src/tools/robot-utils-py.cpp', '')]
C('C50', 'a case is a history of operations on objects seen from python (flags, periodic calls of a device, operators, integrators, switches, robot '
  'parameters) next to plain python models; non-trivial when two objects are combined, a signal is read after a change of the number of '
  'inputs, or three settings are read back', dict(kind='py', module='c50.py', ext='pymod.cpp', bindings=BIND, srcs=DBG + EXC + ['src/%s.cpp' % k for k in (
  'tools/device tools/periodic-call sot/flags matrix/operator matrix/integrator-euler matrix/integrator-abstract tools/switch tools/robot-utils factory/pool').split()]),
  technique=PYTECH, note='No counterexample in the generated cases (counts in the evidence file). The binding sources are compiled on a stand-in of '
  'dynamic-graph-python and loaded in the interpreter which runs the check.')
C('C51', 'a case is a plugin with the entities its module offers, or a task built by the python scripts on real entities with a history of references, '
  'operational point changes, gains and selections; non-trivial when an entity is commanded and read, or the operational point was changed',
  dict(kind='py', module='c51.py', ext='pymod.cpp', headers=True, bindings=[b for b in BIND if 'euler' not in b[0] and 'utils' not in b[0]], srcs=PLUGINS, budget=45, tbudget=400, libs=PLIBS[1:]),
  technique=PYTECH, note='No counterexample in the generated cases (counts in the evidence file). The modules of the plugins are made from the '
  'headers of the repository on a stand-in of dynamic-graph-python and loaded in the interpreter which runs the check.')
