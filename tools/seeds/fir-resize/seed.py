property = 'C14'
needs = 'the number of coefficients changed after some samples, then outputs before as many samples as coefficients'
breaks = 'samples received before the resizing, or none, are counted after it'
sources = ['src/matrix/fir-filter.cpp']
edits = [('include/sot/core/fir-filter.hh', '    buf.resize(n);\n    start = 0;\n    numel = 0;', '    buf.resize(n);\n    start = 0;\n    numel = std::min(numel, n);')]
