property = 'C34'
needs = 'a second goal given after the first movement, with a start which has moved meanwhile'
breaks = 'the second movement begins at the start of the first one: the reference jumps'
sources = ['src/tools/smooth-reach.cpp']
edits = [('src/tools/smooth-reach.cpp', '    start = startSIN(time);\n    startTime = time;', '    if (!isStarted || start.size() != goal.size()) start = startSIN(time);\n    startTime = time;')]
