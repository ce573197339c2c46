property = 'C37'
needs = 'a matrix that is not square'
breaks = 'the rows of the matrix are cut at the wrong places of the line'
sources = ['src/traces/reader.cpp', 'src/sot/flags.cpp']
edits = [('src/traces/reader.cpp', 'vect(i * cols + j)', 'vect(i * rows + j)')]
