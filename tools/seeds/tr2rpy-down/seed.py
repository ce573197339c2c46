property = 'C43'
needs = 'a pitch of minus a quarter turn with a yaw'
breaks = 'the angle given back at the lower singularity has the wrong sign: the matrix is not recovered'
sources = []
edits = [('src/dynamic_graph/sot/core/matrix_util.py', '        y = -atan2(M[0][1], M[1][1])', '        y = atan2(M[0][1], M[1][1])')]
