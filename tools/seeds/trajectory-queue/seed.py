property = 'C38'
needs = 'two trajectories received while a first one is being played'
breaks = 'a trajectory waiting in the queue is lost when another one arrives'
sources = ['src/tools/joint-trajectory-entity.cpp', 'src/tools/trajectory.cpp']
edits = [('src/tools/joint-trajectory-entity.cpp', '''      } else
        deque_traj_.push_back(aTrajectory);''', '''      } else {
        if (deque_traj_.size() > 1) deque_traj_.pop_back();
        deque_traj_.push_back(aTrajectory);
      }''')]
