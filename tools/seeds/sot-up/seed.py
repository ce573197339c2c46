property = 'C24'
needs = 'a stack of at least three tasks and an up of the third one or below'
breaks = 'up moves the task to the top of the stack instead of one place up'
sources = ['src/sot/sot.cpp', 'src/task/task-abstract.cpp', 'src/task/task.cpp', 'src/task/multi-bound.cpp', 'src/sot/flags.cpp', 'src/feature/feature-abstract.cpp',
           'src/factory/pool.cpp', 'src/matrix/matrix-svd.cpp', 'src/sot/memory-task-sot.cpp', 'src/feature/feature-posture.cpp']
edits = [('src/sot/sot.cpp', '''  stack.insert(pos, task);
  controlSOUT.setReady();
}
void Sot::down''', '''  stack.insert(stack.begin(), task);
  controlSOUT.setReady();
}
void Sot::down''')]
