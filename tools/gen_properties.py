#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

I='include/sot/core/'
p('C01','CausalFilter realises its difference equation on every signal',
  "A causal filter with denominator a and numerator b returns, for every sample, the value y satisfying a0*y[N] = sum b_i x[N-i] - sum a_i y[N-i], starting from the steady state of the first sample (a constant input x therefore yields (sum b/sum a)*x from the first call on). Together with y it returns dy and ddy, the first and second backward differences of y divided by the timestep and its square. This holds for every filter order, every signal width, every history and any timestep.",
  ['inputs','histories'],'all numerator/denominator lengths >= 1, all sample histories and vector sizes',
  'No test of CausalFilter runs here; the two filter tests upstream feed one short fixed history.',
  [I+'causal-filter.hh','src/filters/causal-filter.cpp'],
  [('circular buffers for input and output','src/filters/causal-filter.cpp: get_x_dx_ddx')],
  ['CausalFilter::get_x_dx_ddx'])
p('C02','Switching filter coefficients restarts from the current sample',
  "After the coefficients of a running causal filter are replaced, the filter behaves as a fresh filter with the new coefficients whose whole past is the most recent input sample: with a constant input the output stays at the new steady state, and afterwards the difference equation holds over the new history. The output must not depend on samples older than the most recent one.",
  ['inputs','histories'],'all histories before the switch (any number of samples, including a wrapped buffer), all old/new coefficient sets',
  'Needs a switch in the middle of an arbitrary history; tests never switch.',
  [I+'causal-filter.hh','src/filters/causal-filter.cpp','src/filters/filter-differentiator.cpp'],
  [('re-initialisation of the buffers in switch_filter','src/filters/causal-filter.cpp: switch_filter')],
  ['CausalFilter::switch_filter','CausalFilter::get_x_dx_ddx'])
p('C03','Stopwatch accounting is exact over every start/pause/stop history',
  "For each named performance, the total is the sum of the measured laps, the count of completed laps, minimum, maximum, average and last follow from the same laps, and time spent between a pause and the next start is counted in none of them. Stopping or querying an unknown performance, or starting with no timing mode set, raises the documented exception, and while the stopwatch is turned off nothing changes.",
  ['histories'],'all sequences of start/pause/stop/reset/turn_on/turn_off/set_mode over several names, with an arbitrary monotone clock',
  'The existing tests do not exercise the stopwatch; the property is about histories and clock readings.',
  [I+'stop-watch.hh','src/utils/stop-watch.cpp'],
  [('PerformanceData accumulation','src/utils/stop-watch.cpp: start/pause/stop')],
  ['Stopwatch::get_*_time','Stopwatch::report'])
p('C04','Exceptions carry their code, family and complete message',
  "Every exception class of the library reports the error code it was thrown with, the name of its own family, and a message that contains both the plain message and the formatted parameters, for every message text and argument. It can be caught as ExceptionAbstract and as std::exception without losing any of these, and its printed form contains family, code and message; over-long formatted text is truncated, never overflows.",
  ['inputs'],'all exception families, all codes, all message strings and format arguments of any length',
  'Tests never construct an exception with parameters.',
  [I+'exception-abstract.hh']+['src/exception/exception-%s.cpp'%k for k in ('abstract','dynamic','factory','feature','signal','task','tools')],
  [('message assembly in the constructors','src/exception/*.cpp')],
  ['ExceptionAbstract::getCode/getMessage/getExceptionName/what','operator<<'])
p('C05','Debug tracing writes exactly the enabled messages to the chosen sink',
  "A trace message is written to the configured output stream if and only if its level does not exceed the configured trace level, with its text and formatted arguments intact and in call order; a disabled or closed trace writes nothing. Redirecting the trace to a file makes every later message land in that file and none in the previous one, and long formatted messages are truncated, never overflow.",
  ['inputs','histories'],'all sequences of level changes, open/close and trace calls with arbitrary format arguments',
  'The only trace test opens a file once and never reads a level-dependent message back.',
  [I+'debug.hh','src/debug/debug.cpp'],
  [('DebugTrace::trace and openFile/closeFile','src/debug/debug.cpp')],
  ['DebugTrace output stream','the trace file'])
p('C06','Incremental file reading delivers every complete line once, in order',
  "While a file is being appended to, the continuous file reader hands out each complete line exactly once, in file order and with its full text; it never hands out a partial line, never repeats one and never skips one, however writes and polls interleave and however long or empty the lines are.",
  ['histories','inputs'],'all interleavings of appends (split at any byte) and polls, all line lengths including 0 and beyond internal buffers',
  'A test samples one file; the guarantee is over append/poll interleavings.',
  [I+'contiifstream.hh','src/debug/contiifstream.cpp'],
  [('cursor bookkeeping in loop()','src/debug/contiifstream.cpp')],
  ['Contiifstream::ready/next'])
p('C07','Flags behave as an infinite bit vector with a default tail',
  "Flags are an infinite vector of booleans: finitely many explicit bits then a constant tail. Reading any index, add/set/unset, complement, and, or, and conversion to bool agree with that model for every operand length and tail, and printing then parsing, or parsing text in the documented notation (digits, separators, trailing ',' for an all-ones tail), yields the flags that text denotes.",
  ['inputs','histories'],'all operand lengths and tails, all operation sequences, all well-formed texts',
  'The existing flags test is a print-out of a few values with no assertion and is not built here.',
  [I+'flags.hh','src/sot/flags.cpp'],
  [('bit storage and outOfRangeFlag','src/sot/flags.cpp')],['Flags::operator()','operator<<','operator>>'])
p('C08','MultiBound values survive text round-trip and guard their accessors',
  "A MultiBound is either one reference value or a pair with each side possibly absent; accessors return what was stored and raise the documented exception when the requested side or mode does not exist. Writing a MultiBound (or a vector of them) to text and reading it back yields an equal value for every combination, also when several are stored one after another in one stream.",
  ['inputs'],'all modes, all finite bounds, all vector lengths including zero',
  'One fixed string is parsed by the (unbuilt) test.',
  [I+'multi-bound.hh','src/task/multi-bound.cpp'],
  [('operator>> / operator<<','src/task/multi-bound.cpp')],['MultiBound accessors','operator<<','operator>>'])
p('C09','Rigid-motion conversions represent the same motion',
  "Every conversion between pose representations offered by the library (homogeneous matrix, rotation matrix, quaternion, roll-pitch-yaw, theta-u axis-angle, pose vectors, twist matrix) denotes the same rigid motion as its input: rotations stay orthonormal with determinant one, conversion and back is the identity up to the representation's ambiguity, and the twist matrix of a product (inverse) is the product (inverse) of the twist matrices.",
  ['inputs'],'all rotations (including near 0 and near pi) and translations, all chained conversions',
  'Tests check one or two hand-written matrices and are not built here.',
  [I+'matrix-geometry.hh','src/matrix/operator.hh','src/matrix/operator.cpp'],
  [('buildFrom','include/sot/core/matrix-geometry.hh'),('unary conversion operators','src/matrix/operator.hh')],['signals of the conversion entities','buildFrom'])
p('C10','Pseudo-inverse and damped inverse satisfy their defining equations',
  "The pseudo-inverse of any matrix satisfies the four Moore-Penrose conditions on the singular values above the threshold, whatever the shape and rank; the damped inverse equals V diag(s/(s^2+lambda^2)) U^T for every matrix and damping. The singular vectors and values returned alongside reconstruct the matrix.",
  ['inputs'],'all shapes (wide, tall, square, 1-row, 1-column), all ranks, all dampings',
  'Upstream tests compare a couple of fixed or random matrices; nothing here is built.',
  [I+'matrix-svd.hh','src/matrix/matrix-svd.cpp'],
  [('pseudoInverse, dampedInverse','src/matrix/matrix-svd.cpp')],['Eigen::pseudoInverse, Eigen::dampedInverse / dynamicgraph::...'])
p('C11','Algebraic operator entities compute their named operation',
  "Each arithmetic operator entity (sums, differences, products of scalars, vectors, matrices, homogeneous, twist and rotation matrices, inverses, norms, comparisons, weighted sums, temporal convolution, and/or) outputs exactly the mathematical operation it is named for, for every operand size and, for the variadic ones, every number of operands and coefficients.",
  ['inputs','configurations'],'all operand values and sizes, all numbers of operands',
  'test_operator.cpp instantiates one or two values for a few operators.',
  ['src/matrix/operator.hh','src/matrix/operator.cpp',I+'unary-op.hh',I+'binary-op.hh',I+'variadic-op.hh'],
  [('operator functors','src/matrix/operator.hh')],['sout signals'])
p('C12','Structural operators move every component to its documented place',
  "Selectors, stackers, mixers and transposers place each input component at the documented output position and nowhere else, for every selection set, order, overlap and size; a component index or operand outside the allowed range is rejected with an exception and leaves the entity usable. Changing the number of inputs of a variadic operator keeps exactly the named inputs it reports.",
  ['inputs','histories'],'all selections and sizes, all sequences of addSelec/selec/setSignalNumber',
  'Only one or two selections are ever exercised.',
  ['src/matrix/operator.hh','src/matrix/operator.cpp',I+'variadic-op.hh'],
  [('VectorSelecter, VectorStack, VectorMix, MatrixSelector, VariadicAbstract','src/matrix/operator.hh')],['sout signals'])
p('C13','Graph outputs are never stale',
  "When an output is requested at a later time than before, it reflects the current value of every input it depends on: after any sequence of input changes the value equals that of a freshly built entity given the same inputs. Requesting an output repeatedly at the same time returns the same value.",
  ['histories'],'all interleavings of input changes and evaluations of any output, across the stateless entities (features, tasks, operators, controllers, selectors)',
  'Tests evaluate an entity once or with a fixed script; staleness needs a particular order of changes and reads.',
  ['src/feature','src/task','src/control','src/matrix','src/tools','src/math'],
  [('signal dependencies declared in the constructors','src/*/*.cpp constructors')],['all output signals'])
p('C14','Derivator, FIR filter and moving average follow their recurrences',
  "The derivator outputs zero first and then (x[n]-x[n-1])/dt; the FIR filter outputs the convolution of its coefficients with the input history (zero before the first sample) for every type and number of coefficients; the exponential moving average follows avg <- alpha*avg+(1-alpha)*x and rejects coefficients outside [0,1]. Each holds for every input history, also when the same time is evaluated twice.",
  ['histories','inputs'],'all input histories, coefficient sets and signal types',
  'No test runs more than a few samples.',
  [I+'derivator.hh',I+'fir-filter.hh','src/matrix/fir-filter.cpp','src/tools/exp-moving-avg.cpp'],
  [('FIRFilter::compute, CircularBuffer','include/sot/core/fir-filter.hh')],['sout signals'])
p('C15','The Euler integrator integrates its transfer function consistently',
  "For every numerator/denominator and input history the integrator's output follows the semi-implicit Euler recurrence of the stated differential equation, its derivative outputs are the derivatives of the same state, initialisation is rejected unless both polynomials are non-empty and the highest denominator coefficient is the identity, and the output is a function of the history of evaluated times only (repeated evaluation at one time does not integrate twice).",
  ['histories','configurations'],'all polynomial orders, coefficient values, input histories and timesteps',
  'The python test runs one second-order configuration.',
  [I+'integrator-euler.hh',I+'integrator-abstract.hh','src/matrix/integrator-euler.cpp'],
  [('integrate/derivative','include/sot/core/integrator-euler.hh')],['sout, derivativesout'])
p('C16','The filter differentiator publishes the causal filter of its input',
  "For every input history the three outputs are the filtered signal, its first and its second derivative as computed by one causal filter stepped exactly once per evaluated time, whichever outputs are read and in whichever order; before initialisation or with a wrong input size it does not compute.",
  ['histories'],'all read orders of the three outputs, all input histories and coefficients',
  'The test reads outputs in one order.',
  [I+'filter-differentiator.hh','src/filters/filter-differentiator.cpp'],
  [('shared inner signal','src/filters/filter-differentiator.cpp')],['x_filtered, dx, ddx'])
p('C17','The attitude filter keeps a unit quaternion and follows its update law',
  "For every history of gyroscope and accelerometer samples the estimated orientation is a unit quaternion and follows the Madgwick update: pure gyroscope integration when beta is zero or the accelerometer is null (or so small that its square vanishes), and a normalised gradient step of gain beta towards alignment with gravity otherwise; rescaling the accelerometer sample does not change the estimate. Gains outside [0,1] and non-positive timesteps are refused.",
  ['histories','inputs'],'all sensor histories, all gains and timesteps',
  'The upstream test replays one fixed data set.',
  [I+'madgwickahrs.hh','src/filters/madgwickahrs.cpp'],
  [('madgwickAHRSupdateIMU','src/filters/madgwickahrs.cpp')],['imu_quat'])
p('C18','The Kalman filter performs the standard predict/update step',
  "Starting from the given initial state and variance, each evaluated time yields x = x_pred + K (y - y_pred) and P = (I - K H)(F P F^T + Q) with K computed from the current matrices, for all dimensions and histories; the variance stays symmetric positive semi-definite, and a measurement equal to its prediction leaves the prediction unchanged.",
  ['histories','inputs'],'all dimensions, system matrices and measurement histories',
  'No test.',
  [I+'kalman.hh','src/tools/kalman.cpp'],
  [('computeVarianceUpdate, computeStateUpdate','src/tools/kalman.cpp')],['x_est, P signals'])
p('C19','Joint-space controllers output the documented law',
  "The PD controller outputs Kp(qd-q)+Kd(dqd-dq) componentwise with the matching position and velocity errors, and the inverse-dynamics controller outputs inertia*acceleration + gravity, for every size, gain and input history.",
  ['inputs','histories'],'all sizes and values, all evaluation orders of the outputs',
  'Tests check one vector.',
  ['src/control/control-pd.cpp','src/control/control-gr.cpp',I+'control-pd.hh',I+'control-gr.hh'],
  [('computeControl','src/control/control-pd.cpp, control-gr.cpp')],['control signals'])
p('C20','Admittance control integrates the force error within its saturation',
  "At every step the reference velocity in the world frame is the previous one plus dt*(Kp*(desired-measured wrench) - Kd*previous velocity), saturated componentwise to the given limits with its sign kept, the measured wrench being the sensor wrench transported to the end-effector by the sensor placement, and the output is that velocity expressed in the end-effector frame. Resetting or initialising returns the state to zero, and before initialisation nothing is computed.",
  ['histories','inputs'],'all force/pose histories, gains, saturations and resets',
  'Two fixed points are tested upstream.',
  ['src/control/admittance-control-op-point.cpp',I+'admittance-control-op-point.hh'],
  [('w_dq update','src/control/admittance-control-op-point.cpp')],['w_force, w_dq, dq'])
p('C21','Gain laws stay within their bounds and hit their design points',
  "The adaptive gain equals a*exp(-b*|e|)+c and the hyperbolic gain a/2*(tanh(-b(|e|-d))+1)+c, for every parameterisation route (constant, by values, by asymptotes and a slope or point): the value at zero error and the limit at infinity are the requested ones, the design point is met, and the gain is monotone in the error norm between these two limits.",
  ['inputs','configurations'],'all parameterisations and error vectors',
  'test_gain.cpp prints values for one configuration.',
  ['src/task/gain-adaptive.cpp','src/task/gain-hyperbolic.cpp',I+'gain-adaptive.hh',I+'gain-hyperbolic.hh'],
  [('init/computeGain','src/task/gain-*.cpp')],['gain signal'])
p('C22','A task stacks its features and drives their error exponentially',
  "The task error, Jacobian and error time derivative are the concatenation, in insertion order, of those of the features currently in the task restricted to their selected components; the task output is -gain*error minus the error derivative when requested. Adding, removing and clearing features has exactly list semantics and an empty task is refused.",
  ['histories','inputs'],'all sequences of add/remove/clear and all feature dimensions, at first and later evaluations',
  'test_task.cpp builds one task with one feature.',
  ['src/task/task.cpp','src/task/task-abstract.cpp',I+'task.hh',I+'task-abstract.hh'],
  [('computeError, computeJacobian, computeTaskExponentialDecrease','src/task/task.cpp')],['error, jacobian, task signals'])
p('C23','Specialised tasks output their documented references',
  "The PD task outputs the exponential-decrease reference minus beta times the error derivative; the unilateral task outputs the interval of velocities that keeps the position within its bounds over one period; the continuity task adds the exponentially vanishing correction that makes the command continuous with the previous one at activation. Inconsistent inputs raise an exception rather than terminate the process.",
  ['histories','inputs'],'all positions, bounds, gains, timesteps and activation times',
  'No test of these tasks.',
  ['src/task/task-pd.cpp','src/task/task-unilateral.cpp','src/task/task-conti.cpp'],
  [('computeTaskModif, computeTaskUnilateral, computeContiDesiredVelocity','src/task')],['task signals'])
p('C24','The task stack is an ordered set under every editing history',
  "The stack of tasks contains each pushed task once, in push order from highest to lowest priority; up and down exchange a task with its neighbour and do nothing at the ends; remove, pop and clear remove exactly what they name; pushing a task already present or one without a valid task raises. Listing and membership always reflect this, and the control depends on exactly the tasks in the stack.",
  ['histories'],'all sequences of push/pop/remove/up/down/clear over several tasks',
  'tsot.cpp pushes two tasks once.',
  ['src/sot/sot.cpp','src/sot/sot-command.h',I+'sot.hh'],
  [('stack list and dependencies','src/sot/sot.cpp')],['list/display commands, control signal'])
p('C25','The control law solves the tasks in strict priority order',
  "For every stack, the control is the hierarchical damped least-squares solution: each task is solved as well as possible without disturbing any task of higher priority, so the residual of a task is unchanged by the tasks below it; components frozen by the control selection of a task are not used by it; with no task the control equals the requested base control or zero. A task that is refused because of the increment bound does not disable the ones after it.",
  ['inputs','configurations'],'all numbers of tasks, task sizes, Jacobian ranks (including conflicting and rank-deficient tasks), dampings, weights and control sizes',
  'Two fixed two-task stacks upstream, none built here.',
  ['src/sot/sot.cpp','src/sot/memory-task-sot.cpp',I+'sot.hh',I+'memory-task-sot.hh'],
  [('computeControlLaw, computeJacobianConstrained','src/sot/sot.cpp')],['control signal'])
p('C26','Vector features expose the selected error and Jacobian rows',
  "Generic, one-dimensional, 3D-vector, task and posture features output exactly the selected components of the error to the reference (or of the input when no reference is set), the matching Jacobian rows and error time derivative, and a dimension equal to the number of selected components, for every selection and size; setting, replacing and removing the reference takes effect at the next evaluation.",
  ['inputs','histories'],'all selections, sizes, reference changes and input changes',
  'test_feature_generic.cpp checks a couple of vectors.',
  ['src/feature/feature-generic.cpp','src/feature/feature-1d.cpp','src/feature/feature-vector3.cpp','src/feature/feature-posture.cpp','src/feature/feature-task.cpp','src/feature/feature-abstract.cpp'],
  [('computeError/computeJacobian/getDimension','src/feature')],['error, jacobian, errordot, dim'])
p('C27','Pose features give a Jacobian that is the derivative of their error',
  "For every pair of current and desired poses, selection and reference frame, the 6D-pose feature's error vanishes exactly at the desired pose, equals the documented expression in the chosen frame, and its Jacobian and error derivative are the derivative of that error along joint and reference motion (up to the documented approximation); an unknown frame name is refused.",
  ['inputs','configurations'],'all pose pairs away from the pi singularity, all selections and frames',
  'The upstream test checks a few fixed poses; not built here.',
  ['src/feature/feature-point6d.cpp',I+'feature-point6d.hh'],
  [('computeError, computeJacobian, computeErrordot','src/feature/feature-point6d.cpp')],['error, jacobian, errordot'])
p('C28','Relative pose features are consistent in every representation',
  "For every placement of the two joints, frames and desired relative pose, the pose feature outputs the error between actual and desired relative pose in the chosen representation (R3xSO3 or SE3), zero exactly when they coincide, and its Jacobian and error derivative are the derivative of that error for motions of either joint and of the target; optional inputs left unplugged behave as identity or zero.",
  ['inputs','configurations'],'all placements, both representations, all subsets of optional inputs, all selections',
  'Upstream test is a finite-difference check on a few random placements; not built here.',
  ['src/feature/feature-pose.cpp',I+'feature-pose.hh',I+'feature-pose.hxx'],
  [('computeError, computeJacobian, computeErrorDot','include/sot/core/feature-pose.hxx')],['error, jacobian, errordot, faMfb'])
p('C29','Sensor and limit features match their geometric definition',
  "The visual-point feature (error and interaction matrix), the joint-limit feature (normalised distance to the mid-range and its Jacobian), the line-distance and relative-6D features output the geometric quantity they are named for, with a Jacobian that is its derivative with respect to the joint motion, for every input in the domain; a non-positive depth is refused with an exception.",
  ['inputs'],'all inputs in the domain, all selections',
  'No tests.',
  ['src/feature/feature-visual-point.cpp','src/feature/feature-joint-limits.cpp','src/feature/feature-line-distance.cpp','src/feature/feature-point6d-relative.cpp','src/feature/visual-point-projecter.cpp'],
  [('computeError/computeJacobian','src/feature')],['error, jacobian, dim'])
p('C30','Operational-point modifier moves pose and Jacobian together',
  "For every transformation, the modified pose is the input pose composed with the transformation and the modified Jacobian maps the same joint velocity to the velocity of the modified frame (in the local or world-aligned convention selected), so that it is the derivative of the modified pose; the identity transformation changes nothing, and changing the transformation takes effect at the next evaluation.",
  ['inputs','histories'],'all transformations, poses, Jacobians and both conventions',
  'The python test checks fixed matrices and cannot run here.',
  ['src/math/op-point-modifier.cpp',I+'op-point-modifier.hh'],
  [('jacobianSOUT_function, positionSOUT_function','src/math/op-point-modifier.cpp')],['position, jacobian'])
p('C31','The simulated device integrates commands within the declared bounds',
  "With sanity checks on, after every increment the joint positions (and, under second-order integration, velocities) are the previous state integrated by the command over the period and clamped to the declared bounds, the free-flyer is integrated as a rigid motion, time advances by one, the published signals equal the internal state, and a command containing NaN leaves the state unchanged. Bound or state vectors of the wrong size are rejected and change nothing.",
  ['histories','inputs'],'all sequences of commands, mode changes, bound and state settings, timesteps',
  'test_device.cpp drives one scripted sequence.',
  ['src/tools/device.cpp',I+'device.hh'],
  [('integrate, increment, setState','src/tools/device.cpp')],['state, velocity, robotState, control signals'])
p('C32','Safety limiters never let a command through that breaks the limit',
  "The joint limitator zeroes exactly the commands that would leave the joint range and passes the others unchanged; the gripper control scales or zeroes velocity as documented when torque limits are exceeded; the neck limitation output always satisfies the pan/tilt polygon and equals the input when it already does; the workspace clamp projects according to its bounds.",
  ['inputs','histories'],'all positions, commands, limits and histories of torque',
  'No tests.',
  ['src/tools/joint-limitator.cpp','src/tools/gripper-control.cpp','src/tools/neck-limitation.cpp','src/tools/clamp-workspace.cpp'],
  [('limit functions','src/tools')],['output signals'])
p('C33','Event, latch, switch and conversion entities follow their state machine',
  "Events recompute their targets exactly on the configured condition (every evaluation, rising edge, or sustained for n evaluations); the latch output changes only on on/off requests; the switch forwards exactly the selected input and rejects a selector out of range; binary-to-unsigned, timer and timestamp conversions are exact. These hold for every history of inputs.",
  ['histories'],'all histories of conditions, requests and selections',
  'No tests of histories.',
  ['src/tools/event.cpp',I+'event.hh',I+'latch.hh','src/tools/switch.cpp',I+'switch.hh','src/tools/binary-int-to-uint.cpp',I+'timer.hh','src/tools/time-stamp.cpp'],
  [('Event::check, Latch::latchOutput, Switch::signal','include/sot/core')],['output signals'])
p('C34','Trajectory and reference generators produce the documented profile',
  "Motion generators output, at every time, the documented profile: the CoM freezer holds the reference captured when the pattern generator stops and follows it otherwise, periodic motion is the declared constant/sine/cosine, smooth reach interpolates from start to goal monotonically and exactly at both ends, and the gradient ascent follows its step law. Each holds for every sequence of times and parameter changes.",
  ['histories','inputs'],'all time sequences, parameters and input changes',
  'One scripted python test of smooth-reach upstream; not runnable here.',
  ['src/tools/com-freezer.cpp','src/tools/motion-period.cpp','src/tools/smooth-reach.cpp','src/tools/gradient-ascent.cpp'],
  [('compute functions','src/tools')],['output signals'])
p('C35','A mailbox never tears, loses or resurrects the latest post',
  "Reading a mailbox returns the value of the most recent completed post together with its own timestamp, never a mixture of two posts or an older one after a newer; the update flag is set by a post and cleared by reading, and a read before any post returns the initial object.",
  ['schedules','histories'],'all interleavings of posts and reads on several threads, all histories',
  'A single-threaded test posts a few values; it is not built here.',
  [I+'mailbox.hh',I+'mailbox.hxx','src/tools/mailbox-vector.cpp'],
  [('mutex-protected post/get','include/sot/core/mailbox.hxx')],['SOUT, objSOUT, timeSOUT'])
p('C36','Periodic calls and sequenced events fire exactly on schedule',
  "Each registered periodic signal is recomputed exactly at the calls that are multiples of its downsampling factor and never after removal; a sequencer triggers each registered event exactly once, at its scheduled time after start, and not while stopped or after removal, for every history of registrations.",
  ['histories'],'all sequences of add/remove/clear/run/start/stop/reset',
  'No tests.',
  ['src/tools/periodic-call.cpp','src/tools/periodic-call-entity.cpp','src/tools/sequencer.cpp',I+'periodic-call.hh',I+'sequencer.hh'],
  [('runSignals, Sequencer::trigger','src/tools')],['recomputation times of the signals'])
p('C37','File replay yields every row in order',
  "A file loaded into the reader is replayed row by row in file order at successive times, staying on the last row at the end; rewind restarts at the first row, clear empties it; the vector output is the selected columns and the matrix output the same numbers in row-major order, for every file size and line length.",
  ['inputs','histories'],'all files (number of rows, columns, line lengths), selections and sequences of read/rewind/clear',
  'The upstream test only opens a file.',
  ['src/traces/reader.cpp',I+'reader.hh'],
  [('load, getNextData','src/traces/reader.cpp')],['vector, matrix signals'])
p('C38','Joint trajectories are parsed and played back faithfully',
  "Parsing the textual trajectory message recovers header, joint names and every point with all its values; the trajectory entity publishes the points one per evaluated time in order, holds the last one when nothing follows, starts a newly received trajectory only when the current one is finished, and publishes the matching posture, CoM, waist, ZMP and sequence id; copies of a trajectory are equal to the original.",
  ['inputs','histories'],'all trajectories (names, number of points, values) and all sequences of arrivals and evaluations',
  'No test builds it here.',
  ['src/tools/trajectory.cpp','src/tools/joint-trajectory-entity.cpp',I+'trajectory.hh',I+'joint-trajectory-entity.hh'],
  [('RulesJointTrajectory, UpdateTrajectory','src/tools')],['Trajectory fields','position/com/waist/zmp/seqid signals'])
p('C39','URDF/SoT conversions are inverse and preserve the motion',
  "For every joint permutation and configuration, converting joints, base, configuration or velocity from URDF to SoT order and back is the identity, the roll-pitch-yaw base denotes the same rotation as the quaternion, and velocities are rotated by the base orientation; name/id maps are consistent in both directions after every sequence of registrations, and unknown names or ids give the documented defaults. Mimic joints of a robot description are all reported, and nothing else.",
  ['inputs','histories'],'all permutations, configurations, registration histories and URDF trees',
  'test_robot_utils.cpp checks a few fixed values and is not built here.',
  ['src/tools/robot-utils.cpp',I+'robot-utils.hh'],
  [('joints_*_to_*, base_*_to_*, set_name_to_id, ExtractJointMimics','src/tools/robot-utils.cpp')],['RobotUtil API'])
p('C40','The parameter server stores what was set and refuses early use',
  "After initialisation every value set through the parameter server (joint and force ids, limits, frames, typed parameters by path) is returned unchanged by the matching query through any handle on the same robot; before initialisation, or with a non-positive period, commands change nothing and typed queries raise. Reading a missing parameter raises.",
  ['histories','inputs'],'all sequences of commands over several robots, all parameter paths and values',
  'The python test checks a fixed configuration and cannot run here.',
  ['src/tools/parameter-server.cpp',I+'parameter-server.hh','src/tools/robot-utils.cpp',I+'robot-utils.hh'],
  [('m_initSucceeded guards; property tree','src/tools/parameter-server.cpp')],['commands of ParameterServer','getRobotUtil'])
p('C41','Loading and unloading the controller library is safe in any order',
  "The loader starts and drives the external controller only after it was successfully loaded, passes sensor values in and control values out unchanged at every iteration, reports option-parsing and load failures instead of crashing, and can be cleaned up any number of times.",
  ['histories','fault_sequences'],'all orders of option parsing, load, iterations, clean-up, with missing or broken libraries',
  'The existing test loads one good plugin.',
  ['src/tools/sot-loader.cpp',I+'sot-loader.hh',I+'abstract-sot-external-interface.hh'],
  [('SotLoader','src/tools/sot-loader.cpp')],['SotLoader API'])
p('C42','Task and feature registries are faithful maps',
  "After any sequence of registrations, looking a task or feature up by name returns the object registered under it, a second registration under the same name is refused and leaves the first in place, and an unknown name raises the documented exception naming it; graph export lists every registered task.",
  ['histories'],'all sequences of registrations and look-ups',
  'test_factory.cpp is not built here and registers a few fixed names.',
  ['src/factory/pool.cpp',I+'pool.hh'],
  [('PoolStorage maps','src/factory/pool.cpp')],['PoolStorage API'])
p('C43','Python matrix helpers agree with rigid-body algebra',
  "The python matrix utilities convert between homogeneous matrices, roll-pitch-yaw, quaternions and tuples so that the same rigid motion is denoted, round trips are identities up to representation ambiguity, generated orthonormal matrices are orthonormal, and vector/matrix to tuple conversions preserve every element.",
  ['inputs'],'all poses, angles and quaternions, including degenerate ones',
  'Each of the five tests runs on one or two matrices.',
  ['src/dynamic_graph/sot/core/matrix_util.py'],
  [('conversion functions','src/dynamic_graph/sot/core/matrix_util.py')],['return values'])
p('C44','Timed python actions fire exactly at their iteration',
  "Scheduling helpers run each registered action exactly at the iteration it was registered for, in registration order, with 'always' actions at every iteration and removed actions never; history recorders and interruptible loops keep every recorded sample in order and stop and restart on request.",
  ['histories','schedules'],'all sequences of registrations, removals and iterations',
  'No python test of these modules.',
  ['src/dynamic_graph/sot/core/utils/attime.py','src/dynamic_graph/sot/core/utils/history.py','src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py'],
  [('Calendar','src/dynamic_graph/sot/core/utils/attime.py')],['executed actions'])
p('C45','Python meta-tasks wire the graph they describe',
  "Each meta-task helper creates and plugs exactly the entities of its task: after a goto command the desired pose, selection and gain signals hold the requested values, keep/opmodif act on the same entities, and the helpers accept every documented argument form.",
  ['inputs','histories'],'all goals, selections, gains and call sequences',
  'No python test of these modules can run here.',
  ['src/dynamic_graph/sot/core/meta_tasks.py','src/dynamic_graph/sot/core/meta_task_6d.py','src/dynamic_graph/sot/core/meta_task_posture.py','src/dynamic_graph/sot/core/meta_task_visual_point.py','src/dynamic_graph/sot/core/meta_tasks_kine.py'],
  [('gotoNd, generic6dReference, setGain','src/dynamic_graph/sot/core/meta_tasks.py')],['values and plugs recorded by the graph'])
p('C46','Text input of any content never corrupts memory or hangs',
  "Whatever bytes are given to the text readers (flags, multi-bounds, trajectories, replay files, appended log files, robot descriptions), they either produce a value or reject the input with an exception or failed stream, in bounded time and without reading or writing out of bounds.",
  ['inputs'],'all byte strings',
  'Tests feed only well-formed text.',
  ['src/sot/flags.cpp','src/task/multi-bound.cpp','src/tools/trajectory.cpp','src/traces/reader.cpp','src/debug/contiifstream.cpp','src/tools/robot-utils.cpp'],
  [('operator>> and parsers','see files')],['return values, stream state, sanitizer reports'])
p('C47','The viewer shows the state of the robot after every step',
  "Once a viewer is installed on a robot, each increment or setting runs once on the robot and then shows once its current state (padded as asked), under the name hrp for 'robot' and 'robot_device' and the robot's own name otherwise, and calls each display function once; installing it again, or on another robot of the class, changes nothing to this. Without the viewer library the robot works as before. The logging viewer writes each update with its time in the file of its element and passes it on; marks are shown as asked.",
  ['inputs','histories'],'all states, names, histories of steps, settings and installations',
  'No python test of these modules can run here.',
  ['src/dynamic_graph/sot/core/utils/viewer_helper.py','src/dynamic_graph/sot/core/utils/viewer_loger.py'],
  [('refreshView, incrementView, setView, addRobotViewer','src/dynamic_graph/sot/core/utils/viewer_helper.py'),('ViewerLoger.updateElementConfig','src/dynamic_graph/sot/core/utils/viewer_loger.py')],['calls of updateElementConfig, contents of the files'])

# what the code defines where the sentence above leaves it open
def rep(i, *pairs, **kw):
    for x in P:
        if x['id'] == i:
            for a, b in pairs:
                assert a in x['statement'], (i, a)
                x['statement'] = x['statement'].replace(a, b)
            if kw.get('more'): x['statement'] += ' ' + kw['more']
            return
    raise KeyError(i)
rep('C06', more='Lines already complete when the file is first looked at are skipped, as by tail -f; a file that appears later is read from its beginning.')
rep('C07', ("in the documented notation (digits, separators, trailing ',' for an all-ones tail), yields the flags that text denotes", "made of the digits 0 and 1 (blanks skipped), yields the flags that text denotes, any other character being refused with std::invalid_argument"), more='Printing shows the explicit bits only; set and unset beyond the explicit bits do nothing.')
p('C48','Entities are safe to print, query and command at any moment',
  "An entity of any class can be created, printed, asked for any of its signals and given any of its commands, with any well-typed arguments, in any order, before its inputs are set or with some of them only: each call gives its result or raises an exception or reports the error, the process goes on without touching memory it does not own, and the calls end. Printing an entity never fails, whatever its state, and never changes what it computes afterwards: two entities with the same history, one of them printed in between, give the same outputs and the same answers.",
  ['histories','inputs'],'all entity classes of the library, all sequences of printings, commands with well-typed arguments and evaluations of signals, with no input set or any part of the inputs set to values of matching sizes',
  'Tests use ready entities, never print them and never call a command out of order.',
  ['include/sot/core/feature-pose.hxx','include/sot/core/integrator-abstract.hh',I+'integrator-euler.hh',I+'variadic-op.hh','src/feature/feature-1d.cpp','src/filters/filter-differentiator.cpp','src/tools/device.cpp','src/traces/reader.cpp'],
  [('validation of the arguments of the commands','src/*/*.cpp: commands'),('display of each entity','src/*/*.cpp: display')],
  ['Entity::display','Command::execute','SignalBase::recompute'])
p('C49','Entities never disturb each other',
  "What an entity answers depends only on its own history: the inputs it was given, the commands it received and the times at which its outputs were asked. The same history gives the same outputs, command results and refusals when it is played again on a new entity, and when other entities, of the same class or of another, are created, commanded, evaluated and destroyed before it or between any two of its steps. (Shared on purpose, and outside this statement: the registry of robot descriptions behind ParameterServer, the pool of names and the clock.)",
  ['histories','schedules'],'all entity classes of the library (alone, or connected: features and references, tasks with features and gains, stacks of tasks), all histories of inputs, commands and evaluations, all interleavings with a history of other entities',
  'Tests use one entity of a class at a time: a value kept in a static variable, a cache or a buffer shared by all the instances gives the right result there.',
  ['include/sot/core/derivator.hh','include/sot/core/fir-filter.hh',I+'integrator-abstract.hh','src/filters/causal-filter.cpp','src/filters/madgwickahrs.cpp','src/tools/device.cpp','src/tools/smooth-reach.cpp','src/sot/sot.cpp','src/task/task.cpp','src/feature/feature-abstract.cpp'],
  [('members of every entity','src/*/*.cpp, include/sot/core/*.hh'),('working memory of a task','include/sot/core/memory-task-sot.hh')],
  ['Entity','Command::execute','SignalBase::recompute'])
p('C50','The Python bindings show the C++ objects faithfully',
  "What Python sees of flags, device, periodic calls, operators, integrators, switches and robot parameters is the C++ object itself. Flags are built, combined, changed and read as their C++ operators say, each object on its own. The before and after calls of a device run the signals registered from Python, at their period, on their side of the command, and list them. Every operator, integrator, switch class of the factory has one Python class which makes entities of that class; its sin, sin1, sin2, sout, selection members and sin(i) are the entity's own signals under the same names, cannot be replaced, and follow every change of the number of inputs; wrong numbers of inputs, indices and coefficients are refused with a Python exception. Integrator coefficients and the force, foot, joint and order parameters of a robot read back exactly what was last written.",
  ['inputs','histories'],'all exposed classes, all histories of operations from Python',
  'No test of the repository loads the bindings: a member bound to another signal, a getter of another field or an overload hidden by another shows up only for the attribute concerned, after particular writes.',
  ['src/python-module.cc','src/matrix/operator-python-module-py.cc','src/matrix/integrator-euler-python-module-py.cc','src/tools/switch-python-module-py.cc','src/tools/robot-utils-py.cpp'],
  [('objects shown','include/sot/core/flags.hh, include/sot/core/periodic-call.hh, include/sot/core/variadic-op.hh, include/sot/core/robot-utils.hh')],
  ['wrap','robot_utils_sot_py'])
p('C51','Python modules and meta tasks work on the real entities',
  "Every entity class of the plugins is offered by exactly the Python modules built from the plugin headers, under its own class name, with all its signals and commands reachable and none hidden; every script of dynamic_graph.sot.core imports against these modules. A 6D, relative, visual, center-of-mass or posture meta task, and the position features of Python, built on the real features, modifiers, gains and tasks, always have the error, Jacobian, gain and resulting robot command of the point they stand for: whatever the history of robot motions, operational point modifications (set, changed, removed), references, keep, goto, selections and gains, the values are those of the same feature fed directly with the present position, Jacobian and reference, and the stack of tasks solves J u = -gain e with them.",
  ['inputs','histories'],'all plugin modules, all meta task classes, all histories of the operations users script',
  'The Python layer is not tested at all, and with stand-ins of the entities only the calls it makes can be judged: a wrong signal, frame, order or unit agreed between a script and an entity shows only when both run together.',
  ['src/dynamic_graph/sot/core/meta_task_6d.py','src/dynamic_graph/sot/core/meta_tasks.py','src/dynamic_graph/sot/core/meta_tasks_kine_relative.py','src/dynamic_graph/sot/core/meta_task_visual_point.py','src/dynamic_graph/sot/core/meta_task_posture.py','src/dynamic_graph/sot/core/feature_position.py','src/dynamic_graph/sot/core/feature_position_relative.py','src/dynamic_graph/sot/core/math_small_entities.py'],
  [('class lists of the modules','src/*/*-python.h'),('entities behind the scripts','src/feature/feature-point6d.cpp, src/feature/feature-point6d-relative.cpp, src/math/op-point-modifier.cpp, src/task/task.cpp, src/task/gain-adaptive.cpp, src/sot/sot.cpp')],
  ['MetaTask6d','FeaturePosition','goto6d'])
rep('C12', ('a component index or operand outside the allowed range is rejected', 'a mix without one of its inputs, a coefficient count other than the number of inputs, an input index out of range and a name already in use are rejected'))
rep('C15', ('initialisation is rejected unless both polynomials are non-empty and the highest denominator coefficient is the identity', 'initialisation is refused when a polynomial is empty or the highest denominator coefficient is not the identity, a derivative is refused for order zero'))
rep('C16', ('before initialisation or with a wrong input size it does not compute', 'before initialisation the outputs are empty and an input of another size is refused and changes nothing'))
rep('C18', ('P = (I - K H)(F P F^T + Q)', 'P = (I - K H)(F P F^T + Q), updated once per new measurement,'))
rep('C21', more='A gain built by any of its constructors has the signals, commands and values of one created by name and configured with them.')
rep('C21', ('the value at zero error and the limit at infinity are the requested ones, the design point is met', 'for the adaptive gain the value at zero error and the limit at infinity are the requested ones and the design point is met, the hyperbolic gain takes the value a/2+c at d and tends to c'))
rep('C22', ('Adding, removing and clearing features has exactly list semantics', 'Adding and clearing features has exactly list semantics'))
rep('C23', more='A continuity task whose initial command does not fit the task falls back to the exponential law.')
rep('C24', ('contains each pushed task once, in push order', 'contains the pushed tasks in push order'), ('pushing a task already present or one without a valid task raises', 'pushing while no size is set, or by an unknown name, raises; moving or removing a task that is not there does nothing'), ('Listing and membership', 'Tasks outside the stack are not evaluated. Listing and membership'))
rep('C25', ('hierarchical damped least-squares solution', 'hierarchical least-squares solution (singular values not above the damping of the task are dropped)'), more='A base control of another size than the control, and no task without base control, are refused; a projector of another size is ignored.')
rep('C26', more='A reference, Jacobian or derivative too short for the selection is refused with ExceptionFeature.')
rep('C28', ('are the derivative of that error for motions of either joint and of the target', 'are the derivative of that error for motions of either joint, and for a target moving with the requested relative velocity'))
rep('C29', ('a non-positive depth is refused with an exception', 'a depth below 1e-6, and the error of a visual point without reference, are refused with an exception'))
rep('C31', ('With sanity checks on, after every increment', 'With sanity checks on, after every increment of an integrated device'), more='Under first-order integration the published velocity is the command. A period asked with bounds of another size is refused and changes nothing.')
rep('C32', ('exactly the commands that would leave the joint range', 'exactly the commands that would reach or leave the joint range within 5 ms (the free-flyer is let through)'))
rep('C33', ('rising edge,', 'rising edge after the first evaluation,'))
rep('C34', ('holds the reference captured when the pattern generator stops and follows it otherwise', 'follows the reference at its first evaluation, while the pattern generator runs and for 200 evaluations after it stops, and holds it afterwards'), ('smooth reach interpolates from start to goal monotonically and exactly at both ends', 'smooth reach goes from the value at its first evaluation to the goal monotonically and exactly at both ends (at once with no duration)'))
rep('C35', ('Reading a mailbox returns', 'With one reader (the control loop) and several posters, reading a mailbox returns'), more='A read contended with a post may return the content read before.')
rep('C36', more='A null period is refused. Removing an event gives it back to the caller; clearing destroys the events.')
rep('C37', more='Lines without numbers are skipped, a line is read up to its first character which is not part of a number; with no data the vector is empty; loading adds rows.')
rep('C38', ('publishes the matching posture', 'ignores points of fewer than five values and publishes the matching posture'), more='Numbers are in decimal notation with a dot, and there is at least one joint.')
rep('C39', ('denotes the same rotation as the quaternion', 'denotes the same rotation as the quaternion (up to 3e-3 when the pitch is within 0.001 of a quarter turn)'))
rep('C40', more='The simple initialisation needs exactly one registered robot.')
rep('C41', more='Initialising again is possible only after a clean-up.')
rep('C42', ('names the', 'names the') if False else ('graph export lists every registered task', 'a name is free again once its object is destroyed; graph export describes every registered task, feature and stack'))
rep('C43', ('including degenerate ones', 'including degenerate ones') if False else ('round trips are identities up to representation ambiguity', 'round trips are identities up to representation ambiguity (3e-3 near a quarter turn of pitch)'))
rep('C44', ('history recorders and interruptible loops keep every recorded sample in order and stop and restart on request', 'history recorders keep every sample in order from time zero and restore the sample of the time asked; interruptible loops run, pause, step and quit on request'))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
