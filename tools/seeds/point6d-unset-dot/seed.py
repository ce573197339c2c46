property = 'C27'
needs = 'a reference whose rotation is not the identity and the frame of computation "current"'
breaks = 'the rotation rows of the interaction matrix are transposed'
sources = ['src/feature/feature-point6d.cpp', 'src/feature/feature-abstract.cpp', 'src/sot/flags.cpp', 'src/factory/pool.cpp']
edits = [('src/feature/feature-point6d.cpp', 'Lx(i + 3, j + 3) = -hdRh(i, j);', 'Lx(i + 3, j + 3) = -hdRh(j, i);')]
