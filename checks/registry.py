# what most entities of the library rest on
CORE = ["src/exception/exception-%s.cpp" % f for f in (
    "abstract", "signal", "task", "feature", "factory", "tools")] + [
    "src/debug/debug.cpp", "src/factory/pool.cpp", "src/sot/flags.cpp",
    "src/task/task-abstract.cpp", "src/task/multi-bound.cpp",
    "src/feature/feature-abstract.cpp"]

CHECKS = {
    "C01": dict(
        kind="cpp", harness=["c01_causal_filter.cc"],
        sources=["src/filters/causal-filter.cpp"],
        level="model_checking",
        assumptions=["filters whose coefficient sums are non-zero",
                     "tolerance 1e-9 relative to the finite-difference scale"],
    ),
    "C02": dict(
        kind="cpp", harness=["c02_contiifstream.cc"],
        sources=["src/debug/contiifstream.cpp", "src/debug/debug.cpp"],
        level="model_checking",
        assumptions=["the file only grows, by appended text",
                     "a line partly written before the first poll may be skipped, cut or delivered"],
    ),
    "C03": dict(
        kind="cpp", harness=["c03_stopwatch.cc"],
        sources=["src/utils/stop-watch.cpp"],
        level="model_checking",
        assumptions=["well-formed use: stop and pause follow a start",
                     "gettimeofday and clock are replaced by controlled clocks"],
    ),
    "C04": dict(kind="cpp", harness=["c04_debug_trace.cc"], sources=["src/debug/debug.cpp"],
                level="model_checking",
                assumptions=["the tracing macros are compiled in the harness (VP_DEBUG); the library part is compiled without",
                             "a device failure is that of /dev/full"]),
    "C05": dict(
        kind="cpp", harness=["c05_exceptions.cc"],
        sources=["src/exception/exception-%s.cpp" % f for f in (
            "abstract", "signal", "task", "feature", "factory", "dynamic", "tools")]
        + ["src/debug/debug.cpp"],
        level="exploration",
        assumptions=["formatted details of more than 255 characters may be cut"],
    ),
    "C06": dict(kind="py", harness=["c06_calendar.py"], level="model_checking",
                assumptions=["a function stopped while an iteration runs may or may not be called in it"]),
    "C07": dict(kind="py", harness=["c07_thread_loop.py"], level="model_checking",
                assumptions=["thread switches happen between source lines of the module under test",
                             "commands come from one thread; play is not called after quit, restart is"]),
    "C08": dict(kind="py", harness=["c08_matrix_util.py"], level="exploration",
                assumptions=["grids of angles, quaternions and random draws; tolerance 4e-3 next to the singularities"]),
    "C09": dict(kind="py", harness=["c09_history.py"], level="model_checking",
                assumptions=["robots of 36 coordinates, as the dump format requires",
                             "restore: recorded at every iteration from 0"]),
    "C10": dict(kind="py", harness=["c10_metatasks.py"], level="model_checking",
                assumptions=["the compiled entities are replaced by recording stand-ins (mc/dgstub.py)"]),
    "C11": dict(kind="cpp", harness=["c11_mailbox.cc"], sources=[], asan=False,
                ldflags=["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_timedlock,"
                         "--wrap=pthread_cond_wait,--wrap=pthread_cond_timedwait,--wrap=pthread_cond_signal,--wrap=pthread_cond_broadcast,--wrap=gettimeofday"],
                level="model_checking",
                assumptions=["thread switches happen at lock operations, clock readings, in the middle of copies of the object and between calls",
                             "sequentially consistent memory", "one reading thread"]),
    "C12": dict(kind="cpp", harness=["c12_sot.cc"],
                sources=CORE + ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "src/task/task.cpp",
                                "src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp"],
                flags=["-UNDEBUG"], level="model_checking",
                assumptions=["the stand-in of dynamic-graph (stub/)", "Jacobians over small grids, singular values away from the threshold",
                             "a task is at most once in a stack", "inputs change between two times, never within one",
                             "the limit of the increment is not combined with the posture shortcut"]),
    "C13": dict(kind="cpp", harness=["c13_tasks.cc"],
                sources=CORE + ["src/task/task.cpp", "src/task/task-pd.cpp", "src/task/task-unilateral.cpp",
                                "src/task/task-conti.cpp"],
                level="model_checking",
                assumptions=["the stand-in of dynamic-graph (stub/)", "the signals of the features are refreshed at every time step",
                             "errors and Jacobians of a feature agree in size"]),
    "C14": dict(kind="cpp", harness=["c14_gains.cc"], sources=CORE + ["src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp"],
                level="exploration", assumptions=["the stand-in of dynamic-graph (stub/)", "grids of parameters and errors",
                                                  "the error is refreshed at every time step"]),
    "C15": dict(kind="cpp", harness=["c15_flags_bounds.cc"], sources=["src/sot/flags.cpp", "src/task/multi-bound.cpp",
                "src/debug/debug.cpp", "src/exception/exception-abstract.cpp", "src/exception/exception-task.cpp"],
                level="model_checking", assumptions=["flags are read at non-negative indexes and into new objects",
                                                     "values of bounds have at most 6 significant digits"]),
    "C16": dict(kind="cpp", harness=["c16_pool.cc"],
                sources=CORE + ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "src/task/task.cpp",
                                "src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp"],
                level="model_checking", assumptions=["the stand-in of dynamic-graph (stub/)",
                                                     "a task or feature is taken out of its users before it is destroyed"]),
    "C17": dict(kind="cpp", harness=["c17_features.cc"],
                sources=CORE + ["src/feature/feature-%s.cpp" % f for f in (
                    "generic", "1d", "joint-limits", "posture", "task", "visual-point")] + ["src/task/task.cpp"],
                level="model_checking",
                assumptions=["the stand-in of dynamic-graph (stub/)", "the current value of a feature is refreshed at every time step",
                             "limits and joints have the same size", "a reference is replaced before it is destroyed"]),
    "C18": dict(kind="cpp", harness=["c18_jacobians.cc"],
                sources=CORE + ["src/feature/feature-%s.cpp" % f for f in (
                    "point6d", "point6d-relative", "pose", "vector3", "visual-point", "line-distance")],
                level="exploration",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "grids of poses; errors of rotation below 3 rad",
                             "Jacobians of joints in body coordinates; motions by finite differences"]),
    "C19": dict(kind="cpp", harness=["c19_filters.cc"],
                sources=CORE + ["src/filters/causal-filter.cpp", "src/filters/filter-differentiator.cpp", "src/utils/stop-watch.cpp",
                                "src/tools/exp-moving-avg.cpp", "src/tools/gradient-ascent.cpp"],
                level="model_checking",
                assumptions=["the stand-in of dynamic-graph (stub/)", "inputs keep their size",
                             "the inputs of FIR filters, derivators and integrators are refreshed at every time step"]),
    "C20": dict(kind="cpp", harness=["c20_device.cc"], sources=CORE + ["src/tools/device.cpp", "src/tools/periodic-call.cpp"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "the torque bounds are only checked in size"]),
    "C21": dict(kind="cpp", harness=["c21_operators.cc"], sources=CORE,
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "the sizes of the terms of sums, products and comparisons agree",
                             "a convolution is read at every time"]),
    "C22": dict(kind="cpp", harness=["c22_events.cc"],
                sources=CORE + ["src/tools/" + x + ".cpp" for x in ("event", "latch", "periodic-call", "periodic-call-entity", "timer", "binary-int-to-uint")],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "nothing is said of the triggers while a condition is true from the start",
                             "the input of a timer is evaluated at increasing times"]),
    "C23": dict(kind="cpp", harness=["c23_trajectory.cc"],
                sources=CORE + ["src/tools/trajectory.cpp", "src/tools/joint-trajectory-entity.cpp"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "texts name at least one joint",
                             "a trajectory of stamp zero tells nothing new", "nothing is said of the result of a malformed text"]),
    "C24": dict(kind="cpp", harness=["c24_parameters.cc"],
                sources=CORE + ["src/tools/robot-utils.cpp", "src/tools/parameter-server.cpp"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "init_simple succeeds at most once per server",
                             "two names of one id: the name of the id is one of them", "vectors given to conversions have the size of the robot"]),
    "C25": dict(kind="cpp", harness=["c25_controllers.cc"],
                sources=CORE + ["src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp",
                                "src/math/op-point-modifier.cpp", "src/feature/visual-point-projecter.cpp",
                                "src/utils/stop-watch.cpp"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "inputs of an entity have matching sizes",
                             "the force of an admittance is a measure computed at each time", "visual points are in front of the camera"]),
    "C26": dict(kind="cpp", harness=["c26_limiters.cc"],
                sources=CORE + ["src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp", "src/tools/gripper-control.cpp",
                                "src/tools/clamp-workspace.cpp", "src/tools/com-freezer.cpp", "src/tools/smooth-reach.cpp",
                                "src/tools/motion-period.cpp", "src/matrix/vector-constant.cpp", "src/matrix/matrix-constant.cpp",
                                "src/matrix/double-constant.cpp"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "inputs of an entity have matching sizes",
                             "the position of a gripper is a measure computed at each time", "at least 16 joints for the neck",
                             "the parameter of a smooth reach is positive"]),
    "C27": dict(kind="cpp", harness=["c27_estimators.cc"],
                sources=CORE + ["src/tools/kalman.cpp", "src/filters/madgwickahrs.cpp", "src/utils/stop-watch.cpp"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "inputs of an entity have matching sizes",
                             "a Kalman filter is initialized before it is read, with regular variances", "one of the inputs of a Madgwick filter "
                             "is a measure computed at each time"]),
    "C28": dict(kind="cpp", harness=["c28_inverses.cc"], sources=CORE + ["src/matrix/matrix-svd.cpp"],
                level="model_checking",
                assumptions=["no singular value is close to the threshold", "the damping is not zero"]),
    "C29": dict(kind="cpp", harness=["c29_recordings.cc"],
                sources=CORE + ["src/traces/reader.cpp", "src/tools/sequencer.cpp", "src/tools/time-stamp.cpp"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and pinocchio (stub/)", "nothing is said of the vector of a reader without data, "
                             "nor of its matrix when the line is too short", "an event is added once"]),
    "C30": dict(kind="cpp", harness=["c30_loader.cc"], sources=CORE + ["src/tools/sot-loader.cpp"],
                ldflags=["-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose,--wrap=dlerror", "-lboost_program_options"],
                level="model_checking",
                assumptions=["the stand-ins of dynamic-graph and of its Python interpreter (stub/)", "libraries by a controlled dlopen",
                             "a loader is cleaned up between two successful initializations", "the device of a controller is loaded in Python"]),
    "C31": dict(kind="py", harness=["c31_viewer.py"], level="model_checking",
                assumptions=["every robot of a class with viewers was given one, and they have the same size", "a connection is not lost after the first display"]),
}
