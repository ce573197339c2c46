property = 'C49'
needs = 'two adaptive gains, one asked between two evaluations of the other, with an error of the same norm'
breaks = 'a gain gives the value another gain of other coefficients computed for the same error norm'
sources = ['src/task/gain-adaptive.cpp']
edits = [('src/task/gain-adaptive.cpp', '  const double norm = error.norm();\n  res = coeff_a * exp(-coeff_b * norm) + coeff_c;',
          '  const double norm = error.norm();\n  static double last_norm = -1, last_b = 0, last_exp = 1;\n  if (norm != last_norm) {\n    last_exp = exp(-coeff_b * norm);\n    last_norm = norm;\n    last_b = coeff_b;\n  }\n  res = coeff_a * last_exp + coeff_c;')]
