property = 'C36'
needs = 'a signal registered again under the same name with another factor'
breaks = 'the period first given to a signal can no longer be changed'
sources = ['src/tools/periodic-call.cpp', 'src/tools/periodic-call-entity.cpp']
edits = [('src/tools/periodic-call.cpp', 'signalMap[name] = SignalToCall(&sig, downsamplingFactor);', 'signalMap.insert(std::make_pair(name, SignalToCall(&sig, downsamplingFactor)));')]
