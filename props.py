"""The properties: source of properties.jsonl and MANIFEST.json (see gen.py)."""

PROPS = []


def P(pid, title, statement, over, text, why, files, mech, technique, note,
      observe=(), state=()):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=list(observe),
                      state=list(state)))


P("C01", "A causal filter computes its difference equation over any sample history",
  "For every history of samples, the filtered output equals the difference equation given by the numerator and "
  "denominator coefficients, the past before the first sample being the steady state of that sample, and the "
  "reported first and second derivatives are the finite differences of the successive outputs. After the "
  "coefficients are switched, whatever the old and new orders, the filter continues from the steady state of the "
  "last received sample. Filters do not influence one another.",
  ["inputs", "histories", "configurations"],
  "every sequence of samples, switches of coefficients and interleaving of two filters, for every order of "
  "numerator and denominator",
  "No existing test runs the causal filter; its circular buffers only go wrong for particular orders and lengths of history.",
  ["src/filters/causal-filter.cpp", "include/sot/core/causal-filter.hh"],
  [("circular input and output buffers", "src/filters/causal-filter.cpp: CausalFilter::get_x_dx_ddx"),
   ("reset at a change of coefficients", "src/filters/causal-filter.cpp: CausalFilter::switch_filter")],
  "exhaustive enumeration of operation histories of the real filter against a reference model",
  "Every history within the bounds is executed on the compiled class and each output compared with a queue-based "
  "reference implementation of the difference equation; sample and coefficient values come from small sets.",
  ["vector returned for each sample"])

P("C02", "A followed text file is delivered line by line, in order, without loss",
  "Following a growing text file delivers every line completed after the first poll once, whole and in order, "
  "whatever the pieces in which the text is written, the length of the lines and the moments at which the file is "
  "polled. A line is delivered only once its end has been written, and lines that were complete before the first poll "
  "are skipped, and opening another file makes it start over on it.",
  ["histories", "schedules"],
  "every way of cutting the written text into chunks (at any byte), every interleaving of writes, polls and reads, and every change of file",
  "The repository's 'files' test appends a few whole lines in one order; partial lines and interleavings are not reached.",
  ["src/debug/contiifstream.cpp", "include/sot/core/contiifstream.hh"],
  [("read cursor", "src/debug/contiifstream.cpp: Contiifstream::loop")],
  "exhaustive enumeration of the interleavings of writer and reader steps on the real class",
  "All interleavings within the bounds are run with real files in a scratch directory and compared with the list of complete lines.",
  ["lines returned by the follower"])

P("C03", "The stopwatch's statistics are exact for every history of measurements",
  "After any history of starts, stops, pauses, resets and mode changes of several timers, each timer's number of "
  "measurements, total, average, minimum, maximum and last duration are those of its own completed measurements, a "
  "paused and resumed measurement counting once with the sum of its pieces. Null durations count like others, in "
  "real and in processor time modes. Disabled stopwatches record nothing and errors are raised exactly for unknown "
  "timers and unset modes.",
  ["histories", "inputs"],
  "every sequence of stopwatch operations on two timers with any clock reading between them",
  "There is no test of the stopwatch: statistics depend on the order of operations and on the clock.",
  ["src/utils/stop-watch.cpp", "include/sot/core/stop-watch.hh"],
  [("statistics updated when a measurement ends", "src/utils/stop-watch.cpp: Stopwatch::stop, Stopwatch::pause")],
  "exhaustive enumeration of operation histories under a controlled clock",
  "The real class is linked with replaced clock functions; every history within the bounds is compared with a reference model.",
  ["statistics accessors and report text"])

P("C04", "Debug traces go to the last opened file, complete and in order",
  "In every history of openings, closings, failures of the device and traces, the traces of enabled levels are "
  "written to the last opened file, and to no other, in order, opening a file having emptied it. Nothing is written "
  "while no file is open, nor for disabled levels. Formatted traces longer than the trace buffer are cut, never overflow.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of openings, closings, failed openings and writes, and traces of each kind and level",
  "The tests never open a trace file; failures of the device and changes of file are not reached.",
  ["src/debug/debug.cpp", "include/sot/core/debug.hh"],
  [("file of the traces", "src/debug/debug.cpp: DebugTrace::openFile, DebugTrace::closeFile"),
   ("level filters", "include/sot/core/debug.hh")],
  "exhaustive enumeration of operation histories with injected device failures on the real code",
  "Every history within the bounds is run on real files (one of them /dev/full) and the files compared with the expected text.",
  ["content of the trace files"])

P("C05", "Errors keep their code, category, message and details",
  "Every error raised by the library carries the numeric code, the category name, the message and the formatted "
  "details it was built with, and copying or assigning it preserves them. An error is catchable as its own "
  "category and as the common base, and its text shows the category, the code, the message and the details. "
  "Building an error never interprets the data it reports as formatting instructions.",
  ["inputs", "configurations"],
  "every error category, code, message and kind of formatted argument",
  "No existing test raises these errors or looks at their text.",
  ["src/exception/exception-abstract.cpp", "src/exception/exception-task.cpp", "src/exception/exception-feature.cpp",
   "src/exception/exception-signal.cpp", "src/exception/exception-factory.cpp", "src/exception/exception-dynamic.cpp",
   "src/exception/exception-tools.cpp", "include/sot/core/exception-abstract.hh"],
  [("construction of the message", "src/exception/exception-*.cpp"),
   ("output operator", "src/exception/exception-abstract.cpp")],
  "exhaustive enumeration of error categories x codes x messages x formatted arguments",
  "Every combination of the finite menus is built, copied, thrown and printed with the real classes; text up to 255 formatted characters.",
  ["getCode, getMessage, getStringMessage, what, printed text"])

P("C06", "The calendar of actions calls exactly the due functions, once, in order",
  "Running an iteration calls exactly the functions registered for every iteration, then those registered for that "
  "iteration, once each and in order of registration, whatever the way in which they were registered and whatever "
  "happened before. Fast-forwarding to a time runs everything registered up to it in order of time. Functions "
  "that register or stop others, or themselves, while running do not disturb the other ones, and the calendar can "
  "always be listed.",
  ["histories", "programs"],
  "every history of registrations (in each form), stops, listings, runs and fast-forwards, also from inside the called functions",
  "There is no test of the calendar.",
  ["src/dynamic_graph/sot/core/utils/attime.py"],
  [("calendar of events", "src/dynamic_graph/sot/core/utils/attime.py: Calendar")],
  "exhaustive enumeration of operation histories, including reentrant ones, against a reference calendar",
  "Every history within the bounds is run on the real module and the log of calls compared with the model.",
  ["log of called functions"])

P("C07", "The interruptible thread loop obeys the last command in every schedule",
  "Whatever the script of play, pause, once, quit and restart commands, and whatever the interleaving of the "
  "commanding thread with the loop thread, the loop keeps running after play, stops running after pause, runs exactly "
  "one more iteration after once, and ends after quit. Iterations never overlap, no command is lost, and no command "
  "blocks forever.",
  ["schedules", "histories"],
  "every script of commands and every interleaving of the two threads at source line granularity",
  "There is no test of the loop; its outcome depends on thread switches between its lines.",
  ["src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py"],
  [("commands shared between the two threads", "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py")],
  "stateless model checking of the real two-thread code: preemption-bounded exploration under a controlled scheduler",
  "All schedules within 2 (3) preemptions at line granularity, for all scripts within the bounds; switches inside one source line are not explored.",
  ["log of iterations, liveness of the thread"])

P("C08", "Pose and rotation helpers agree with one another and with the definitions",
  "Roll-pitch-yaw angles, quaternions and elementary rotations give the rotation matrix of their definition, and the "
  "angles extracted from a pose represent the same pose, for every angle including the singular ones. The frame "
  "completed from a first axis is a rotation having this axis for every random draw that allows one, and conversions to "
  "tuples preserve the shape and values of every vector and matrix.",
  ["inputs"],
  "every rotation and translation, every shape",
  "The existing tests check a couple of fixed values of each helper.",
  ["src/dynamic_graph/sot/core/matrix_util.py"],
  [("conversions", "src/dynamic_graph/sot/core/matrix_util.py")],
  "exhaustive enumeration of a finite grid of rotations, vectors and shapes",
  "Exhaustive on grids of angles and quaternions (singular ones included), with a tolerance; other angles are not covered.",
  ["returned matrices and tuples"])

P("C09", "The recorded history is exact and can be restored",
  "The history records the state at exactly the iterations requested by its period, with the values held by the "
  "signals at that time. The dumped files contain, in order, one line per recorded iteration with those values. "
  "Restoring a recorded time gives the recorded state back.",
  ["histories", "inputs", "configurations"],
  "every pattern of recorded iterations, period, optional signals and form of values",
  "There is no test of the history.",
  ["src/dynamic_graph/sot/core/utils/history.py"],
  [("record and dump", "src/dynamic_graph/sot/core/utils/history.py")],
  "exhaustive enumeration of recording histories against a reference",
  "Every pattern within the bounds is run on the real module with recording stand-ins for the compiled signals.",
  ["recorded lists, dumped files"])

P("C10", "Meta-tasks drive exactly the signals of the task they describe",
  "Creating a meta-task and issuing commands to it (reference, goto with any form of gain and selection, modifier, "
  "frame selections, keep) leaves the underlying features and tasks with exactly the requested references, gains and "
  "selections, whatever the previous commands. Commands to one meta-task never change another one. A posture command "
  "changes exactly the joints of the named limbs, given in any form, for every size of robot.",
  ["histories", "inputs", "configurations"],
  "every history of commands and every form of argument, for one or two robots",
  "There is no test of the meta-tasks.",
  ["src/dynamic_graph/sot/core/meta_tasks.py", "src/dynamic_graph/sot/core/meta_task_6d.py",
   "src/dynamic_graph/sot/core/meta_task_posture.py", "src/dynamic_graph/sot/core/meta_task_visual_point.py",
   "src/dynamic_graph/sot/core/meta_tasks_kine_relative.py", "src/dynamic_graph/sot/core/feature_position.py",
   "src/dynamic_graph/sot/core/feature_position_relative.py"],
  [("meta-task classes", "src/dynamic_graph/sot/core/meta_task*.py"),
   ("goto and gain helpers", "src/dynamic_graph/sot/core/meta_tasks.py")],
  "exhaustive enumeration of command histories against a reference model of the signals",
  "The real Python modules run on recording stand-ins of the compiled entities (mc/dgstub.py), which are trusted.",
  ["signal values, plugs and entity commands"])

P("C11", "A mailbox hands over whole objects, never backwards, under any interleaving",
  "Whatever the interleaving of posting threads with the thread of the graph, every object read from a mailbox is one "
  "that was posted, whole and with its own date; reads never go back to an older object and never block. When no post "
  "is under way during a read, the newest posted object is delivered. hasBeenUpdated tells whether an object was "
  "posted since the last read.",
  ["schedules", "histories"],
  "every interleaving of posts and reads at lock operations, clock readings and in the middle of copies of the object",
  "The repository's mailbox test runs two free threads once: the failing interleavings need a switch inside a critical section.",
  ["include/sot/core/mailbox.hh", "include/sot/core/mailbox.hxx"],
  [("critical sections of post and get", "include/sot/core/mailbox.hxx: Mailbox::post, Mailbox::get"),
   ("wake-up of the output signal", "include/sot/core/mailbox.hxx: SOUT.setReady in Mailbox::post")],
  "stateless exploration of thread interleavings of the real class under a controlled scheduler (bounded preemptions)",
  "The real template runs on fibers with replaced locks and clock; the signals are those of the stand-in of dynamic-graph (stub/).",
  ["SOUT, objSOUT, timeSOUT, hasBeenUpdated"])

P("C12", "The stack of tasks solves its hierarchy of tasks, whatever its history",
  "The control is the solution of the hierarchy of least-squares problems given by the tasks in the order of the stack, "
  "the initial control, the initial projector, the selected joints and the inversion threshold: a task never disturbs "
  "one above it, and one whose increment exceeds the limit is left out without effect on the others. Push, pop, remove, "
  "up, down and clear change exactly the order they name and take effect at once. The control does not depend on the "
  "past sizes of tasks or robot, nor on other stacks sharing the tasks.",
  ["inputs", "histories", "configurations"],
  "every matrix of a grid, every selection, threshold and limit, every history of commands and changes of size",
  "The test of the stack checks a few fixed stacks; ranks, limits and changes of size only matter in combination.",
  ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "include/sot/core/memory-task-sot.hh", "src/sot/sot-command.h"],
  [("resolution of the hierarchy", "src/sot/sot.cpp: Sot::computeControlLaw, updateControl, computeJacobianActivated"),
   ("order of the stack", "src/sot/sot.cpp: push, pop, remove, up, down, clear"),
   ("memory kept by the tasks", "include/sot/core/memory-task-sot.hh")],
  "exhaustive enumeration of task grids and command histories of the real class against a reference solver",
  "The compiled class runs on the stand-in of dynamic-graph (stub/); the reference uses projectors and eigenvectors instead of bases of kernels.",
  ["controlSOUT, list and display commands"])

P("C13", "A task gathers exactly its features, whatever the history",
  "Error, Jacobian and time derivative of a task are the ones of its features, stacked in the order of their addition, "
  "and the task is minus the gain times the error, with the derivative terms of the variant (minus the time derivative when "
  "asked for, proportional-derivative, continuous start from an initial control, unilateral bounds). This holds after every "
  "history of additions, clear, changes of gain and of size of features and robot, in any order of reading. An empty "
  "list or a failing feature raises a typed error and the next good time step is right again.",
  ["histories", "inputs", "configurations"],
  "every list of features of any size, every history of commands and changes of size, every order of reading",
  "The test of tasks has one feature of fixed size and one history.",
  ["src/task/task.cpp", "src/task/task-pd.cpp", "src/task/task-conti.cpp", "src/task/task-unilateral.cpp", "src/task/task-abstract.cpp"],
  [("stacking of errors and Jacobians", "src/task/task.cpp: computeError, computeJacobian, computeErrorTimeDerivative"),
   ("list of features", "src/task/task.cpp: addFeature, clearFeatureList"),
   ("variants of the law", "src/task/task-pd.cpp, src/task/task-conti.cpp, src/task/task-unilateral.cpp")],
  "exhaustive enumeration of lists of features and histories of the real classes against a reference",
  "The compiled classes run on the stand-in of dynamic-graph (stub/), with features given by plain signals.",
  ["task, error, jacobian, errorTimeDerivative, errorDot, list"])

P("C14", "Adaptive gains follow their law whatever the sequence of settings",
  "The gain is a function of the norm of the error only: the requested value at zero, the requested limit far away, the "
  "exponential (or hyperbolic) law in between, through the requested slope or passing point, and never a value that is not "
  "a number. It follows the last setting whatever the previous ones (constant, by slope, by point, forced constant).",
  ["inputs", "histories"],
  "every value, slope, passing point and error, every sequence of settings",
  "The test of gains reads one gain at one error.",
  ["src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp"],
  [("laws", "src/task/gain-adaptive.cpp: computeGain; src/task/gain-hyperbolic.cpp: computeGain"),
   ("settings", "src/task/gain-adaptive.cpp: init, initFromPassingPoint, forceConstant")],
  "exhaustive enumeration of settings and errors over grids against the closed form",
  "The compiled classes run on the stand-in of dynamic-graph (stub/), on grids of values.",
  ["gain signal"])

P("C15", "Flags and bounds keep their algebra, and their text is read back",
  "Flags behave as infinite sequences: conjunction, disjunction, negation, addition, set and unset act element by element "
  "whatever the lengths, operands that are not written keep their value, and a text of zeros and ones makes the same flags "
  "by every way or is refused. A bound gives back exactly the values and presence last set and refuses those it does not "
  "have. Vectors of bounds are read back from their text, consuming exactly it; a damaged text is refused.",
  ["inputs", "histories"],
  "every pair of flags, every sequence of operations, every text within bounds, every place of damage",
  "The tests of flags and bounds print a few values.",
  ["src/sot/flags.cpp", "include/sot/core/flags.hh", "src/task/multi-bound.cpp", "include/sot/core/multi-bound.hh"],
  [("algebra of flags", "src/sot/flags.cpp: operator&=, operator|=, operator!"),
   ("text of flags", "src/sot/flags.cpp: Flags(const char*), operator>>"),
   ("text of bounds", "src/task/multi-bound.cpp: operator<<, operator>>")],
  "exhaustive enumeration of values, operation sequences and texts against a reference",
  "The compiled classes run with their real inputs; no stand-in is involved.",
  ["flags, bounds, text"])

P("C16", "Names lead to the living tasks and features, and only to them",
  "A task or feature is found under its name from its creation to its destruction and never after: a stack or a task asked "
  "for a name gets the living object or a typed error. A name given back can be used again, for an object of either kind. "
  "Two living objects never share a name, and the refused one does not disturb the first.",
  ["histories"],
  "every history of creations, destructions and uses of names",
  "The test of the pool creates objects and never destroys them.",
  ["src/factory/pool.cpp", "src/task/task-abstract.cpp", "src/feature/feature-abstract.cpp"],
  [("registration and removal", "src/task/task-abstract.cpp, src/feature/feature-abstract.cpp: taskRegistration, featureRegistration, destructors"),
   ("lookup", "src/factory/pool.cpp: getTask, getFeature")],
  "exhaustive enumeration of histories of the real classes against the set of living objects",
  "The compiled classes run on the stand-in of dynamic-graph (stub/).",
  ["push and add commands, getTask, getFeature"])

P("C17", "Features follow their inputs, reference and selection; errors are exact",
  "At each time the error of a feature, its derivative and its dimension are those of its inputs, selection and current "
  "reference at that time, whatever the history of changes of sizes, selections, references and order of reading. The "
  "Jacobian is the derivative of the error with respect to the joints, and a missing or too short input is refused by a "
  "typed error, never read outside of its bounds. A feature no longer depends on a reference it has been separated from.",
  ["inputs", "histories"],
  "histories of changes of inputs, selections, references and sizes, with every order of reading",
  "The test of FeatureGeneric checks a few errors at one time each, with no change of size, selection or reference.",
  ["src/feature/feature-generic.cpp", "src/feature/feature-abstract.cpp", "src/feature/feature-1d.cpp",
   "src/feature/feature-joint-limits.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-task.cpp"],
  [("selection", "src/feature/feature-generic.cpp, feature-posture.cpp: getDimension, computeError, computeJacobian"),
   ("references", "include/sot/core/feature-abstract.hh: FeatureReferenceHelper, DECLARE_REFERENCE_FUNCTIONS"),
   ("derivative", "src/feature/feature-abstract.cpp: computeErrorDot")],
  "exhaustive enumeration of histories of the real classes against reference definitions of the errors",
  "The compiled classes run on the stand-in of dynamic-graph (stub/); errors of size up to 4.",
  ["errorSIN, jacobianSIN, selecSIN, setReference, actuate, selectDof commands"])

P("C18", "Jacobians of the geometric features are the derivatives of their errors",
  "For every pose, frame and selection, the error of a geometric feature (point6d, relative, pose, vector3, visual point, "
  "line distance) is the displacement it documents and its Jacobian is the derivative of that error when the joints move. "
  "For point6d and pose, the derivative of the error compensates exactly the motion of the reference. Outputs follow every change of inputs, "
  "frame, reference and selection, in every order of reading, and singular depths are refused by a typed error.",
  ["inputs", "histories"],
  "grids of poses, frames, references and selections, and histories of changes",
  "The test of FeaturePose samples random poses, and the other geometric features have no test of their Jacobian.",
  ["src/feature/feature-point6d.cpp", "src/feature/feature-point6d-relative.cpp", "src/feature/feature-pose.cpp",
   "include/sot/core/feature-pose.hxx", "src/feature/feature-vector3.cpp", "src/feature/feature-visual-point.cpp",
   "src/feature/feature-line-distance.cpp"],
  [("errors", "computeError of each feature"), ("Jacobians", "computeJacobian of each feature"),
   ("feedforward", "computeErrorDot, computeErrordot of FeaturePoint6d and FeaturePose")],
  "exhaustive enumeration of grids and histories on the real classes, with finite differences of reference errors",
  "The compiled classes run on the stand-ins of dynamic-graph and pinocchio (stub/); rotations of the error below 3 rad.",
  ["position, jacobian, selection and reference signals, frame and keep commands"])

P("C19", "Filters, derivators and integrators compute their recurrence along time",
  "For every sequence of inputs, times, order of reading and failures of the input, the output of a filter (finite impulse "
  "response, moving average, derivator, Euler integrator, gradient ascent, filter differentiator) at each evaluation is the value of "
  "its documented recurrence on the inputs of the evaluations so far. A failed reading of the input neither loses nor "
  "counts a sample. Coefficients outside of the allowed range, and filters used before they are initialized, are refused "
  "by an error and never read outside of memory.",
  ["inputs", "histories"],
  "sequences of inputs with jumps of time, repeated readings, failures of the input and changes of coefficients",
  "The tests of filters print a few outputs or run one sequence.",
  ["src/matrix/fir-filter.cpp", "include/sot/core/fir-filter.hh", "include/sot/core/derivator.hh", "include/sot/core/integrator-euler.hh",
   "include/sot/core/integrator-abstract.hh", "src/tools/exp-moving-avg.cpp", "src/tools/gradient-ascent.cpp",
   "src/filters/filter-differentiator.cpp", "src/filters/causal-filter.cpp"],
  [("finite impulse response", "include/sot/core/fir-filter.hh: compute, setBufferSize, setElement"),
   ("derivator", "include/sot/core/derivator.hh: computeDerivation"),
   ("integrator", "include/sot/core/integrator-euler.hh: integrate, derivative, initialize")],
  "exhaustive enumeration of bounded sequences on the real classes against the recurrences",
  "The compiled classes run on the stand-in of dynamic-graph (stub/); inputs keep their size during a history.",
  ["sin, sout, coefficients, initialization commands"])

P("C20", "The device integrates the accepted controls into its state, within its bounds",
  "At every iteration the state, velocity and motor control of the device are those obtained by integrating the controls "
  "given so far, as positions, velocities or accelerations, from the state set last; with a free-flyer the root moves by the "
  "exponential of its twist. With sanity checks, position, velocity and state stay within the bounds given, bounds of a "
  "wrong size are refused, and a control with NaN leaves the state unchanged. The periodic signals before and after are called "
  "at their periods, in order, whatever fails among them.",
  ["inputs", "histories"],
  "histories of settings and iterations with every kind and size of control, every failure of periodic calls",
  "The test of the device integrates one constant control once.",
  ["src/tools/device.cpp", "include/sot/core/device.hh", "src/tools/periodic-call.cpp"],
  [("integration", "src/tools/device.cpp: increment, integrate"), ("root", "src/tools/device.cpp: setRoot, integrateRollPitchYaw"),
   ("bounds", "src/tools/device.cpp: setPositionBounds, setVelocityBounds, setTorqueBounds, setSanityCheck"),
   ("periodic calls", "src/tools/periodic-call.cpp: run, runSignals")],
  "exhaustive enumeration of bounded histories of the real device against a reference integration",
  "The compiled device runs on the stand-ins of dynamic-graph and pinocchio (stub/); states of 3 to 8 components.",
  ["control, state, velocity and motorcontrol signals, commands of the device"])

P("C21", "Operators compute their documented function of their current inputs",
  "For every operator of the library (selections, components, diagonals, products, sums, inversions, comparisons, and/or, "
  "conversions between representations of rotations, poses and twists, mixes, convolutions), the output read at any time is its documented "
  "function of the current inputs and of the parameters set last, for every order of changes of inputs, parameters and number of inputs. "
  "Inputs or selections of a wrong size are refused by an error and never read or written outside of memory.",
  ["inputs", "histories"],
  "histories of inputs, parameters, numbers of inputs and readings, over grids of values of each type",
  "The test of operators evaluates a few of them once, mostly on random values.",
  ["src/matrix/operator.hh", "src/matrix/operator.cpp", "include/sot/core/unary-op.hh", "include/sot/core/binary-op.hh",
   "include/sot/core/variadic-op.hh"],
  [("functions", "src/matrix/operator.hh: operator() of each structure"), ("parameters", "src/matrix/operator.hh: addSpecificCommands, initialize"),
   ("number of inputs", "include/sot/core/variadic-op.hh: addSignal, removeSignal, setSignalNumber")],
  "exhaustive enumeration of bounded histories of the real operators against reference functions",
  "The compiled operators run on the stand-in of dynamic-graph (stub/); sizes of the terms of sums, products and comparisons agree.",
  ["sin, sin1, sin2, sout, sinN, commands of the operators"])

P("C22", "Events, switches, latches and periodic calls act on every history",
  "An event reports exactly the changes of its condition from one evaluation to the next, evaluates its triggers at each rise, and again "
  "every N evaluations while the condition stays true when a repetition is set. A switch gives the input selected now, refuses any other "
  "selection by an error, and follows every change of selection, inputs and their number; a latch keeps the last command. "
  "Periodic calls evaluate, in the order of names, exactly the signals present at the multiples of their period.",
  ["histories"],
  "histories of conditions, failures, selections, commands, additions, removals and readings",
  "The tests instantiate none of these entities.",
  ["src/tools/event.cpp", "include/sot/core/event.hh", "include/sot/core/switch.hh", "src/tools/switch.cpp", "include/sot/core/latch.hh",
   "src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp", "include/sot/core/timer.hh", "src/tools/binary-int-to-uint.cpp"],
  [("event", "src/tools/event.cpp: check"), ("switch", "include/sot/core/switch.hh: signal"), ("latch", "include/sot/core/latch.hh"),
   ("periodic calls", "src/tools/periodic-call.cpp: runSignals, addDownsampledSignal")],
  "exhaustive enumeration of bounded histories of the real entities against models of them",
  "The compiled entities run on the stand-in of dynamic-graph (stub/); two triggers, two periodic signals, up to three inputs.",
  ["check, sout, out, triger signals, commands of these entities"])

P("C23", "Trajectories are read from text, queued, and played one point at a time",
  "The text of a trajectory gives exactly the number, stamp, frame, joints and points it writes, whatever the sizes of the lists and the "
  "format of numbers, and reading any malformed text ends. The points of the trajectories received are played in order, one for each "
  "time evaluated, whatever the outputs read; the last one is held when nothing follows. A failure of the input skips no point, and "
  "position, center of mass, center of pressure, waist and number are those of the point played.",
  ["inputs", "histories"],
  "grids of texts and every damage of them; histories of trajectories received, failures and readings",
  "No test reads or plays a trajectory.",
  ["src/tools/trajectory.cpp", "include/sot/core/trajectory.hh", "src/tools/joint-trajectory-entity.cpp", "include/sot/core/joint-trajectory-entity.hh"],
  [("text", "src/tools/trajectory.cpp: RulesJointTrajectory, Trajectory::deserialize"), ("queue", "src/tools/joint-trajectory-entity.cpp: UpdateTrajectory, OneStepOfUpdate"),
   ("outputs", "src/tools/joint-trajectory-entity.cpp: UpdatePoint, getNext*")],
  "exhaustive enumeration of texts and of bounded histories on the real classes against a stream of points",
  "The compiled classes run on the stand-in of dynamic-graph (stub/); up to three joints, two points, five trajectories.",
  ["initTraj command, trajectoryIN, position, com, zmp, waist, seqid signals"])

P("C24", "A robot keeps what the parameter server is told, and conversions keep meaning",
  "Names, ids, limits, frames, maps and parameters read from a robot are the last ones told through any server of that robot, and the "
  "documented defaults where nothing was told; reading a parameter never told, or as another type than its text allows, is an error. "
  "Configurations and velocities converted between the URDF and SoT conventions describe the same motion and come back unchanged, at the "
  "singular orientations too. Mapping a joint outside of the robot, or a server that is not initialized, is refused or ignored and harms nothing.",
  ["inputs", "histories"],
  "grids of orientations and joint maps; histories of commands to one or two servers on one or two robots",
  "The tests check one map, one configuration and one parameter.",
  ["src/tools/robot-utils.cpp", "include/sot/core/robot-utils.hh", "src/tools/parameter-server.cpp", "include/sot/core/parameter-server.hh"],
  [("names and ids", "src/tools/robot-utils.cpp: RobotUtil::set_name_to_id, ForceUtil::set_name_to_force_id"),
   ("conversions", "src/tools/robot-utils.cpp: base_se3_to_sot, joints_urdf_to_sot, velocity_urdf_to_sot"),
   ("parameters", "include/sot/core/robot-utils.hh: set_parameter, get_parameter"), ("robots", "src/tools/parameter-server.cpp: init, init_simple")],
  "exhaustive enumeration of bounded histories and grids on the real classes against a model of the robot",
  "The compiled classes run on the stand-in of dynamic-graph (stub/); up to four joints, two robots and two servers.",
  ["commands of ParameterServer", "members of RobotUtil and ForceUtil", "getListOfRobots"])

P("C25", "Controllers and operational points follow their law of the current inputs",
  "A PD controller, a gravity controller, an operational point modifier and a point projecter give their documented function of the inputs, "
  "transformation and mode of the time of the reading, in whatever order the outputs are read and the inputs and commands change. "
  "An admittance integrates the force error once per time, within its saturations, from zero since its last init or reset, and expresses force and "
  "velocity in the documented frames. Missing inputs are errors, never stale values, and an init with missing inputs does nothing.",
  ["inputs", "histories"],
  "histories of three to five changes of inputs and commands, all readings in every order",
  "The tests check one value of each law, computed once.",
  ["src/control", "src/math/op-point-modifier.cpp", "src/feature/visual-point-projecter.cpp"],
  [("controllers", "src/control/control-pd.cpp, control-gr.cpp: computeControl"), ("admittance", "src/control/admittance-control-op-point.cpp: w_force, w_dq, dq, init, resetDq"),
   ("operational point", "src/math/op-point-modifier.cpp: jacobianSOUT_function, positionSOUT_function"), ("projection", "src/feature/visual-point-projecter.cpp: point3Dgaze, point2D")],
  "exhaustive enumeration of bounded histories on the real classes against the laws",
  "The compiled classes run on the stand-ins of dynamic-graph and pinocchio (stub/); two or three values per input.",
  ["output signals of ControlPD, ControlGR, AdmittanceControlOpPoint, OpPointModifier, VisualPointProjecter", "their commands"])

P("C26", "Limiters keep commands within limits and generators play the curve given",
  "Joint, neck and gripper limiters let a command through unchanged within the limits, and otherwise stop, bound or weaken only the joints concerned, as documented; limiting "
  "the neck twice is limiting it once. A frozen center of mass follows its reference while the pattern generator runs and 200 iterations more, then holds. "
  "A smooth reach leaves its start and ends exactly at its last goal after the duration given, and periodic motions, clamps and constants give the value their parameters define.",
  ["inputs", "histories"],
  "histories of three to five changes of inputs and commands with skips; a grid of neck positions",
  "Most of these entities have no test; the others are tested at one point.",
  ["src/tools", "src/matrix/vector-constant.cpp", "src/matrix/matrix-constant.cpp", "src/matrix/double-constant.cpp"],
  [("joints", "src/tools/joint-limitator.cpp: computeControl"), ("neck", "src/tools/neck-limitation.cpp: computeJointLimitation"),
   ("gripper", "src/tools/gripper-control.cpp: computeIncrement, computeDesiredPosition, selector"), ("center of mass", "src/tools/com-freezer.cpp: computeFreezedCoM"),
   ("reach", "src/tools/smooth-reach.cpp: goalSOUT_function"), ("motions and clamps", "src/tools/motion-period.cpp: computeMotion; src/tools/clamp-workspace.cpp: update")],
  "exhaustive enumeration of bounded histories on the real classes against the laws",
  "The compiled classes run on the stand-in of dynamic-graph (stub/); two to four values per input, up to 40 joints for the neck.",
  ["output signals of JointLimitator, NeckLimitation, GripperControl, ClampWorkspace, CoMFreezer, SmoothReach, MotionPeriod and the constants", "their commands"])

P("C27", "State estimates follow their recursion once per time from their initial state",
  "A Kalman filter predicts and corrects its variance and its state once at each time, with constant or changing models, from the last initial variance and state given, "
  "in whatever order its outputs are read, and its gain is that of the variances of that time. An attitude filter integrates the gyroscope and descends the gradient of the "
  "gravity error by beta, keeps a unit quaternion from the one set last, and refuses non-positive time steps and betas outside of [0, 1].",
  ["inputs", "histories"],
  "histories of three to five changes of inputs and commands, all readings in every order",
  "The tests check one attitude from one measure; the Kalman filter has none.",
  ["src/tools/kalman.cpp", "include/sot/core/kalman.hh", "src/filters/madgwickahrs.cpp"],
  [("Kalman", "src/tools/kalman.cpp: computeVarianceUpdate, computeStateUpdate; include/sot/core/kalman.hh: setStateVariance"),
   ("attitude", "src/filters/madgwickahrs.cpp: madgwickAHRSupdateIMU, set_imu_quat, set_beta, init")],
  "exhaustive enumeration of bounded histories on the real classes against the information form of the filter and the gradient of the error",
  "The compiled classes run on the stand-in of dynamic-graph (stub/); one or two measures of two states.",
  ["output signals of Kalman and MadgwickAHRS", "their commands"])

P("C28", "Inverses are those of every matrix, cut or damped as asked",
  "The pseudo-inverse of a matrix satisfies the Penrose conditions on the directions whose singular value exceeds the threshold, is null on the others and never amplifies by "
  "more than one over the threshold. The damped inverse gives the minimum of the residue plus the damping times the solution, whichever function computes it, and the factors "
  "returned are orthonormal, ordered and give the matrix back. Inputs are left as they were, whatever their shape, and outputs take the size of the last input.",
  ["inputs"],
  "all matrices up to 3x3 of small integers, several thresholds, dampings and scales; sequences in the same objects",
  "The tests invert a few random matrices.",
  ["src/matrix/matrix-svd.cpp", "include/sot/core/matrix-svd.hh"],
  [("pseudo-inverse", "src/matrix/matrix-svd.cpp: pseudoInverse"), ("damped inverse", "src/matrix/matrix-svd.cpp: dampedInverse")],
  "exhaustive enumeration of a grid of matrices on the real functions against the conditions which define the inverses",
  "Singular values are not close to the threshold; the damping is not zero.",
  ["pseudoInverse", "dampedInverse"])

P("C29", "Recorded data, events and time stamps happen at their times",
  "A reader gives the lines of numbers of its files one per time, in order, whole and whatever their length, restricted to the selected entries, and stays on the last one until "
  "it is rewound, cleared or loaded again. A sequencer runs each of its events once, at its delay after the first trigger in play mode, in the order of their addition, and none "
  "which was removed. Time stamps are those of the clock at the reading, and their synchronous versions those of the first reading at a time.",
  ["inputs", "histories"],
  "histories of loads, clears, rewinds, selections and readings; of events added, removed and triggered; of readings of a clock",
  "The tests read one file of two lines; sequencers and time stamps have no test.",
  ["src/traces/reader.cpp", "src/tools/sequencer.cpp", "src/tools/time-stamp.cpp"],
  [("reader", "src/traces/reader.cpp: load, getNextData, getNextMatrix"), ("sequencer", "src/tools/sequencer.cpp: addTask, rmTask, trigger"),
   ("time stamp", "src/tools/time-stamp.cpp: getTimeStamp, getTimeStampDouble")],
  "exhaustive enumeration of bounded histories on the real classes against a model, under a controlled clock",
  "Nothing is said of the vector of a reader without data nor of a matrix larger than the line; an event is added once.",
  ["signals of Reader, Sequencer, TimeStamp", "their commands"])

P("C30", "A loaded controller runs exactly while started and is taken apart once",
  "Initializing a loader succeeds exactly when its library opens and makes controllers, and otherwise leaves nothing open; the options of the command line name the library or give "
  "the help. An iteration gives the sensors to the controller, then takes its controls, exactly when one is loaded and the graph is started, and its errors reach the caller as they are. "
  "However often it is cleaned up, each controller is destroyed once before its library is closed, its device is left to it, and Python knows its path and its device.",
  ["histories", "fault_sequences", "inputs"],
  "histories of library names, initializations, starts, stops, iterations, failures and cleanings; command lines; environments",
  "The tests follow one history each, with one good library and no failure of the graph.",
  ["src/tools/sot-loader.cpp", "include/sot/core/sot-loader.hh"],
  [("life of a controller", "src/tools/sot-loader.cpp: initialization, cleanUp"), ("iteration", "src/tools/sot-loader.cpp: oneIteration"), ("options", "src/tools/sot-loader.cpp: parseOptions"),
   ("Python", "src/tools/sot-loader.cpp: initialization, loadDeviceInPython")],
  "exhaustive enumeration of bounded histories of the real loader over controlled libraries",
  "dlopen and its friends are replaced at link time; what is asked of Python is recorded, and run by a real Python in one suite.",
  ["initialization", "oneIteration", "cleanUp", "parseOptions"])

P("C31", "Robots shown in a viewer move once and are shown as they are",
  "Giving viewers to robots never changes how they move: every increment and every new configuration is applied once, to that robot alone, with its arguments, whichever robots of "
  "its class have a viewer and however the giving failed. After every motion of a robot with a viewer, and at every refresh, this viewer alone is given once the state of the robot, "
  "with the extra coordinates asked for, under the name it is known by, and each display function runs once. A logging viewer forwards all it is shown and logs it with its time, line by line.",
  ["histories", "fault_sequences"],
  "histories of viewers given to two robots of one class, with each failure, of motions, refreshes and display functions; of what is logged",
  "The viewers have no test at all.",
  ["src/dynamic_graph/sot/core/utils/viewer_helper.py", "src/dynamic_graph/sot/core/utils/viewer_loger.py"],
  [("viewers", "src/dynamic_graph/sot/core/utils/viewer_helper.py: addRobotViewer, refreshView, incrementView, setView"),
   ("pinger", "src/dynamic_graph/sot/core/utils/viewer_helper.py: VisualPinger, updateComDisplay"),
   ("log", "src/dynamic_graph/sot/core/utils/viewer_loger.py: ViewerLoger")],
  "exhaustive enumeration of bounded histories of the real Python code with a recording viewer",
  "The size of the shown state is a setting of the class; a robot of a class with viewers which was never given one is not moved. The files of the log are redirected to a scratch directory.",
  ["addRobotViewer", "increment, set, refresh of a robot", "ViewerLoger"])

NOT_APPLICABLE = []
