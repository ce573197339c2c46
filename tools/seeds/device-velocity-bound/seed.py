property = 'C31'
needs = 'second-order integration with sanity checks, an acceleration that takes a velocity over its bound'
breaks = 'the bounds are applied to the velocity before it is integrated, so the published velocity leaves them by one increment'
sources = ['src/tools/device.cpp', 'src/tools/periodic-call.cpp']
edits = [('src/tools/device.cpp', '''    // Velocity integration.
    velocity_.tail(controlIN.size()) += controlIN * dt;
  } else {''', '''  } else {'''),
         ('src/tools/device.cpp', '''  if (vel_control_.size() == state_.size()) {''', '''  // Velocity integration.
  if (controlInputType_ == CONTROL_INPUT_TWO_INTEGRATION)
    velocity_.tail(controlIN.size()) += controlIN * dt;

  if (vel_control_.size() == state_.size()) {''')]
