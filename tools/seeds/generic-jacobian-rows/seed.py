property = 'C26'
needs = 'a selection which does not start with the first component'
breaks = 'the rows of the Jacobian are taken in sequence instead of at the selected indices'
sources = ['src/feature/feature-generic.cpp', 'src/feature/feature-abstract.cpp', 'src/sot/flags.cpp', 'src/factory/pool.cpp']
edits = [('src/feature/feature-generic.cpp', 'res(curr, j) = Jac(i, j);', 'res(curr, j) = Jac(curr, j);')]
