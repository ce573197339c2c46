property = 'C39'
needs = 'an orientation of the base with at least two non-zero angles'
breaks = 'the angles are composed in the reverse order, so that converting back gives another orientation'
sources = ['src/tools/robot-utils.cpp']
tail = '''

  q_urdf[0] = q_sot[0];  // BASE
  q_urdf[1] = q_sot[1];
  q_urdf[2] = q_sot[2];
  q_urdf[3] = quat.x();
  q_urdf[4] = quat.y();
  q_urdf[5] = quat.z();
  q_urdf[6] = quat.w();

  return true;
}

bool RobotUtil::config'''
edits = [('src/tools/robot-utils.cpp', 'quat = yawAngle * pitchAngle * rollAngle;' + tail, 'quat = rollAngle * pitchAngle * yawAngle;' + tail)]
