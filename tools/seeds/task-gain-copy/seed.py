property = 'C22'
needs = 'a gain signal computed from the error, read in the same step as the task'
breaks = 'the task is computed with the gain of the previous step'
sources = ['src/task/task-abstract.cpp', 'src/task/task.cpp', 'src/task/multi-bound.cpp', 'src/task/gain-adaptive.cpp', 'src/sot/flags.cpp', 'src/feature/feature-abstract.cpp',
           'src/feature/feature-generic.cpp', 'src/factory/pool.cpp']
edits = [('src/task/task.cpp', 'const double &gain = controlGainSIN(time);\n  errorRef.resize', 'const double &gain = controlGainSIN.accessCopy();\n  errorRef.resize')]
