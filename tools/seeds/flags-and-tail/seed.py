property = 'C07'
needs = 'the conjunction of a longer vector with a shorter one whose implicit tail is true (a negation)'
breaks = 'the bits beyond the shorter operand ignore its implicit tail'
sources = ['src/sot/flags.cpp']
edits = [('src/sot/flags.cpp', '    flags[i] = flags[i] | f2.outOfRangeFlag;', '    flags[i] = flags[i] | outOfRangeFlag;')]
