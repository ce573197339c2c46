property = 'C01'
needs = 'a denominator of length 3 or more and a sample processed just after the ring buffer of outputs wrapped around'
breaks = 'the second finite difference uses a stale output sample each time the ring buffer wraps'
sources = ['src/filters/causal-filter.cpp']
edits = [('src/filters/causal-filter.cpp', '(m_pt_denominator == 0) ? m_filter_order_n - 2 : m_pt_denominator - 1;', '(m_pt_denominator == 0) ? 0 : m_pt_denominator - 1;')]
