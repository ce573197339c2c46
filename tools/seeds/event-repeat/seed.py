property = 'C33'
needs = 'the repetition is on and the condition stays true for longer than twice the period'
breaks = 'after the first repetition the event fires at every evaluation instead of every n evaluations'
sources = ['src/tools/event.cpp']
edits = [('src/tools/event.cpp', '      (*_s)->recompute(time);\n    timeSinceUp_ = 0;\n', '      (*_s)->recompute(time);\n    if (up) timeSinceUp_ = 0;\n')]
