property = 'C20'
needs = 'a force which saturates the velocity for several steps, then one of the other sign'
breaks = 'the velocity beyond the saturation is kept inside, the output stays saturated after the force has changed'
sources = ['src/control/admittance-control-op-point.cpp', 'src/utils/stop-watch.cpp']
edits = [('src/control/admittance-control-op-point.cpp',
          '  for (int i = 0; i < m_n; i++) {\n    if (m_w_dq[i] > dqSaturation[i]) m_w_dq[i] = dqSaturation[i];\n    if (m_w_dq[i] < -dqSaturation[i]) m_w_dq[i] = -dqSaturation[i];\n  }\n\n  s = m_w_dq;',
          '  s = m_w_dq;\n  for (int i = 0; i < m_n; i++) {\n    if (s[i] > dqSaturation[i]) s[i] = dqSaturation[i];\n    if (s[i] < -dqSaturation[i]) s[i] = -dqSaturation[i];\n  }')]
